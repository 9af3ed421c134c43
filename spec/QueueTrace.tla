----------------------------- MODULE QueueTrace -----------------------------
(* Traces recorded from the real PaginatedQueue, checked against AbsQueue.                          *)
(* Lines: reset(ps) | op(n,k,v,r,obs) | restart(ps,obs) | crash(ps, r = surviving keys)             *)
(* obs = [size, empty, f3, fall]: size(), is_empty(), first-3 and all span keys, taken after the op *)
EXTENDS AbsQueue, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q, ps, skip, bad
tv == <<l, q, ps, skip, bad>>

B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]

ObsBad(e, qq) ==
  (IF e.size = Len(qq) THEN {} ELSE {B(e, "size", Len(qq), e.size)}) \cup
  (IF e.empty = (IF qq = <<>> THEN 1 ELSE 0) THEN {} ELSE {B(e, "empty", qq = <<>>, e.empty)}) \cup
  (IF e.f3 = QFirst(qq, 3) THEN {} ELSE {B(e, "first", QFirst(qq, 3), e.f3)}) \cup
  (IF e.fall = QKeySeq(qq) THEN {} ELSE {B(e, "first", QKeySeq(qq), e.fall)})

(* snapshots taken before each commit inside the call: as if the process were killed there *)
SnapBad(e, q0, q1) ==
  LET ok == {QKeySeq(s) : s \in CrashSurvivors(q0, ps) \cup CrashSurvivors(q1, ps)} IN
  {B(e, "crashinside", QKeySeq(q0), e.snaps[j]) : j \in {x \in DOMAIN e.snaps : e.snaps[x] \notin ok}}

Pfx(e, s) == {[b EXCEPT !.clause = e.ev \o "." \o b.clause] : b \in s}

TInit == l = 1 /\ q = <<>> /\ ps = 1 /\ skip = FALSE /\ bad = {}
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> q' = <<>> /\ ps' = e.ps /\ skip' = FALSE /\ bad' = bad
       [] e.ev # "reset" /\ skip -> UNCHANGED <<q, ps, skip, bad>>
       [] e.ev = "op" /\ ~skip ->
            LET a  == QApply(q, [n |-> e.n, k |-> e.k, v |-> e.v])
                b1 == IF e.r = a.r THEN {} ELSE {B(e, "result." \o e.n, a.r, e.r)}
                b  == Pfx(e, b1 \cup ObsBad(e, a.q) \cup SnapBad(e, q, a.q))
            IN q' = a.q /\ bad' = bad \cup b /\ skip' = (b # {}) /\ UNCHANGED ps
       [] e.ev = "restart" /\ ~skip ->
            LET b1 == IF e.r = <<>> THEN {} ELSE {B(e, "result", <<>>, e.r)}
                b == Pfx(e, b1 \cup ObsBad(e, q) \cup SnapBad(e, q, q)) IN
            q' = q /\ ps' = e.ps /\ bad' = bad \cup b /\ skip' = (b # {})
       [] e.ev = "crash" /\ ~skip ->
            LET ok == \E s \in CrashSurvivors(q, ps) : QKeySeq(s) = e.r
                s  == IF ok THEN CHOOSE s \in CrashSurvivors(q, ps) : QKeySeq(s) = e.r ELSE q
                b  == IF ok THEN Pfx(e, ObsBad(e, s)) ELSE {B(e, "crash.survivors", QKeySeq(q), e.r)}
            IN q' = s /\ ps' = e.ps /\ bad' = bad \cup b /\ skip' = (b # {})
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
