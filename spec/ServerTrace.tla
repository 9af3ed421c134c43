---------------------------- MODULE ServerTrace -----------------------------
(* Traces of a real application: what clients put on and read from the wire, what endpoints,        *)
(* middleware and the log saw.                                                                      *)
EXTENDS ServerOps, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cn, rel, kd, ex, ans, cnt, bad
tv == <<l, cn, rel, kd, ex, ans, cnt, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Stuck(r) == r.kind \in Waits /\ r.id \notin rel
SpOk(r, e) == CASE r.s = "y" -> e.sp = r.id [] r.s = "n" -> e.sp = 0 [] OTHER -> e.sp \in {0, r.id}
Match(r, e) == IF r.kind = "enq" THEN e.a = 1
               ELSE e.a = 0 /\ e.st \in Allowed(r.kind) /\ SpOk(r, e) /\ e.v # -1 /\ ~Stuck(r)
First(q, e) == LET S == {i \in DOMAIN q : Match(q[i], e)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RcvBad(e) ==
  IF e.c \notin DOMAIN cn THEN {B(e, "rcv.conn", "a known connection", e.c)} ELSE
  LET q == cn[e.c].q IN
  IF q = <<>> THEN {B(e, "rcv.extra", "no response is due", e.st)}
  ELSE IF cn[e.c].tr = "udp" THEN (IF First(q, e) # 0 THEN {} ELSE {B(e, "rcv.udp", q, <<e.st, e.sp, e.v>>)})
  ELSE LET r == Head(q) IN
    IF Stuck(r) THEN {B(e, "rcv.early", "the response to " \o ToString(r.id) \o " first", <<e.st, e.sp>>)}
    ELSE IF r.kind = "enq" THEN (IF e.a = 1 THEN {} ELSE {B(e, "rcv.ack", "ACK", e.st)})
    ELSE IF e.a = 1 THEN {B(e, "rcv.ack", r.kind, "ACK")}
    ELSE (IF e.st \in Allowed(r.kind) THEN {} ELSE {B(e, "rcv.status", <<r.kind, Allowed(r.kind)>>, e.st)}) \cup
         (IF SpOk(r, e) THEN {} ELSE {B(e, "rcv.span", <<r.kind, r.s, r.id>>, e.sp)}) \cup
         (IF e.v # -1 THEN {} ELSE {B(e, "rcv.data", <<r.kind, r.id>>, e.v)})
RcvIdx(e) == IF cn[e.c].tr # "udp" THEN 1 ELSE LET i == First(cn[e.c].q, e) IN IF i = 0 THEN 1 ELSE i
UdpStuck == \E c \in DOMAIN cn : cn[c].tr = "udp" /\ \E i \in DOMAIN cn[c].q : Stuck(cn[c].q[i])
QuiBad(e) ==
  {B(e, "qui.owed", "a response to " \o ToString(cn[c].q[1].id) \o " " \o cn[c].q[1].kind, "none") :
     c \in {x \in {e.cs[j] : j \in DOMAIN e.cs} : x \in DOMAIN cn /\ cn[x].q # <<>> /\
            (\/ cn[x].tr # "udp" /\ cn[x].st \in {"open", "half"} /\ ~Stuck(cn[x].q[1])
             \/ cn[x].tr = "udp" /\ cn[x].st = "open" /\ ~UdpStuck)}} \cup
  {B(e, "qui.close", "the server closes a connection its client has closed", c) :
     c \in {x \in {e.cs[j] : j \in DOMAIN e.cs} : x \in DOMAIN cn /\ cn[x].st = "half" /\ cn[x].q = <<>>}}
EofBad(e) ==
  IF cn[e.c].st = "half" /\ cn[e.c].q = <<>> /\ e.part = 0 THEN {}
  ELSE {B(e, "conn.closed", <<"stays open", cn[e.c].st, Len(cn[e.c].q)>>, "closed")}
ExeBad(e) ==
  (IF e.id \in DOMAIN kd THEN {} ELSE {B(e, "exe.unknown", "a request that was sent completely", e.id)}) \cup
  (IF e.id \in DOMAIN ex THEN {B(e, "exe.twice", "once", e.id)} ELSE {}) \cup
  (IF e.id \in DOMAIN kd /\ kd[e.id] \in NeverRuns THEN {B(e, "exe.kind", kd[e.id], "was run")} ELSE {}) \cup
  (IF e.sp = e.id THEN {} ELSE {B(e, "span.endpoint", e.id, e.sp)})
MwBad(e) ==
  LET w == Handle(e.route, e.plan) IN
  (IF e.got = w.calls THEN {} ELSE {B(e, "mw.calls", w.calls, e.got)}) \cup
  (IF e.st = w.st THEN {} ELSE {B(e, "mw.status", w.st, e.st)}) \cup
  (IF e.rs = w.rs THEN {} ELSE {B(e, "mw.response", w.rs, e.rs)})
EndBad(e) == {B(e, "exe.never", <<i, kd[i]>>, "answered but not run") :
                i \in {j \in ans : kd[j] \in Runs /\ j \notin DOMAIN ex}}
Ep(k) == IF k \in {"big", "surrd"} THEN "ok" ELSE IF k = "surr" THEN "strict" ELSE k
(* successful calls are counted once each; a call whose client went away may have been one *)
Cnt(x) == IF x \in DOMAIN cnt THEN cnt[x] ELSE 0
Sent(x) == Cardinality({i \in DOMAIN kd : Ep(kd[i]) = x})
NotOk(x) == Cardinality({i \in ans : Ep(kd[i]) = x}) - Cnt(x)
StatBad(e) == {B(e, "stat.count", <<e.n[j][1], Cnt(e.n[j][1]), Sent(e.n[j][1]) - NotOk(e.n[j][1])>>, e.n[j][2]) :
                j \in {x \in DOMAIN e.n : e.n[x][2] < Cnt(e.n[x][1]) \/ e.n[x][2] > Sent(e.n[x][1]) - NotOk(e.n[x][1])}}

TInit == l = 1 /\ cn = << >> /\ rel = {} /\ kd = << >> /\ ex = << >> /\ ans = {} /\ cnt = << >> /\ bad = {}
U(v) == UNCHANGED v
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> cn' = << >> /\ rel' = {} /\ kd' = << >> /\ ex' = << >> /\ ans' = {} /\ cnt' = << >> /\ U(bad)
       [] e.ev = "open" -> cn' = (e.c :> [tr |-> e.tr, st |-> "open", q |-> <<>>]) @@ cn /\ U(<<rel, kd, ex, ans, cnt, bad>>)
       [] e.ev = "snd" -> /\ cn' = [cn EXCEPT ![e.c].q = Append(@, [id |-> e.id, kind |-> e.kind, s |-> e.s])]
                          /\ kd' = (e.id :> e.kind) @@ kd /\ U(<<rel, ex, ans, cnt, bad>>)
       [] e.ev = "rel" -> rel' = rel \cup {e.id} /\ U(<<cn, kd, ex, ans, cnt, bad>>)
       [] e.ev = "rcv" -> /\ bad' = bad \cup RcvBad(e)
                          /\ IF e.c \in DOMAIN cn /\ cn[e.c].q # <<>>
                             THEN LET i == RcvIdx(e)  r == cn[e.c].q[i] IN
                                  /\ cn' = [cn EXCEPT ![e.c].q = DropAt(@, i)]
                                  /\ ans' = ans \cup {r.id}
                                  /\ cnt' = IF e.st = 0 /\ e.a = 0 THEN (Ep(r.kind) :> (IF Ep(r.kind) \in DOMAIN cnt THEN cnt[Ep(r.kind)] + 1 ELSE 1)) @@ cnt ELSE cnt
                             ELSE U(<<cn, ans, cnt>>)
                          /\ U(<<rel, kd, ex>>)
       [] e.ev = "gone" -> cn' = [cn EXCEPT ![e.c].st = "gone"] /\ U(<<rel, kd, ex, ans, cnt, bad>>)
       [] e.ev = "hgone" -> cn' = [cn EXCEPT ![e.c].st = "half"] /\ U(<<rel, kd, ex, ans, cnt, bad>>)
       [] e.ev = "eof" -> bad' = bad \cup EofBad(e) /\ cn' = [cn EXCEPT ![e.c].st = "eof"] /\ U(<<rel, kd, ex, ans, cnt>>)
       [] e.ev = "qui" -> bad' = bad \cup QuiBad(e) /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] e.ev = "exe" -> /\ bad' = bad \cup ExeBad(e) /\ ex' = (e.id :> 1) @@ ex /\ U(<<cn, rel, kd, ans, cnt>>)
       [] e.ev = "spn" -> bad' = (IF e.sp = e.id THEN bad ELSE bad \cup {B(e, "span.hook", e.id, e.sp)}) /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] e.ev = "log" -> bad' = (IF e.sp = e.id THEN bad ELSE bad \cup {B(e, "log.ids", e.id, e.sp)}) /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] e.ev = "mw" -> bad' = bad \cup MwBad(e) /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] e.ev = "stat" -> bad' = bad \cup StatBad(e) /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] e.ev = "broken" -> bad' = bad \cup {B(e, "server.broken", "serves on", e.why)} /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] e.ev = "end" -> bad' = bad \cup EndBad(e) /\ U(<<cn, rel, kd, ex, ans, cnt>>)
       [] OTHER -> U(<<cn, rel, kd, ex, ans, cnt, bad>>)
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
