---------------------------- MODULE ShipperTrace -----------------------------
(* Histories of the real log shipper, per log file (f): write (n: complete lines so far, told before the write), gone    *)
(* (lines lo..hi are on the disk no more), post (ids of the lines the endpoint received; ok: it said so), fault (the       *)
(* shipper was killed), died (it ended by itself), end (the endpoint answers, and the shipper had all the time it needs).*)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, next, gone, flt, bad
tv == <<l, n, next, gone, flt, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
If(c, x) == IF c THEN {x} ELSE {}
Known(f) == f \in DOMAIN n
N(f)     == IF Known(f) THEN n[f] ELSE 0
Nx(f)    == IF f \in DOMAIN next THEN next[f] ELSE 1
Fl(f)    == IF f \in DOMAIN flt THEN flt[f] ELSE FALSE
Gn(f)    == IF f \in DOMAIN gone THEN gone[f] ELSE {}
Set(m, f, v) == [g \in (DOMAIN m) \cup {f} |-> IF g = f THEN v ELSE m[g]]
AllGone(f, a, b) == \A k \in a..b : k \in Gn(f)
PostBad(e) ==
  LET f == e.f  s == e.ids[1]  last == e.ids[Len(e.ids)]  nx == Nx(f) IN
  IF \E k \in 1..Len(e.ids) : e.ids[k] = 0 THEN {B(e, "content", "the line as it was written", e.x)}
  ELSE If(\E k \in 1..Len(e.ids) : e.ids[k] > N(f), B(e, "unwritten", <<"at most", N(f)>>, e.ids))
       \cup If(\E k \in 2..Len(e.ids) : ~(e.ids[k] > e.ids[k - 1] /\ AllGone(f, e.ids[k - 1] + 1, e.ids[k] - 1)), B(e, "order", "consecutive lines", e.ids))
       \cup If(s > nx /\ ~AllGone(f, nx, s - 1), B(e, "skipped", nx, s))
       \cup If(s < nx /\ ~Fl(f), B(e, "twice", nx, s))
TInit == l = 1 /\ n = <<>> /\ next = <<>> /\ gone = <<>> /\ flt = <<>> /\ bad = {}
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> n' = <<>> /\ next' = <<>> /\ gone' = <<>> /\ flt' = <<>> /\ bad' = bad
       [] e.ev = "write" -> n' = Set(n, e.f, e.n) /\ UNCHANGED <<next, gone, flt, bad>>
       [] e.ev = "gone"  -> gone' = Set(gone, e.f, Gn(e.f) \cup e.lo..e.hi) /\ UNCHANGED <<n, next, flt, bad>>
       [] e.ev = "post"  ->
            /\ bad' = bad \cup PostBad(e)
            /\ next' = IF e.ok = 1 THEN Set(next, e.f, e.ids[Len(e.ids)] + 1) ELSE next
            /\ flt'  = Set(flt, e.f, e.ok = 0) /\ UNCHANGED <<n, gone>>
       [] e.ev = "fault" -> flt' = [f \in DOMAIN n |-> TRUE] /\ UNCHANGED <<n, next, gone, bad>>
       [] e.ev = "died"  -> bad' = bad \cup {B(e, "terminated", "keeps running", e.x)} /\ UNCHANGED <<n, next, gone, flt>>
       [] e.ev = "end"   -> bad' = bad \cup {B(e, "undelivered", <<f, N(f)>>, Nx(f) - 1) : f \in {g \in DOMAIN n : Nx(g) <= N(g) /\ ~AllGone(g, Nx(g), N(g))}}
                            /\ UNCHANGED <<n, next, gone, flt>>
       [] OTHER -> UNCHANGED <<n, next, gone, flt, bad>>
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
