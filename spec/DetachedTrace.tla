---------------------------- MODULE DetachedTrace -----------------------------
(* Jobs handed to the real thing. After every operation the driver notes what it sees:                      *)
(* op [n, j, kind, end, p, early |-> the job ran before the call returned, back |-> what the call gave],      *)
(* jobs |-> per job [j, starts, pauses, ends, alive, args, ctx]: how often it started, at how many points it  *)
(* waited, how often it ended, whether anything of it still exists, and that it got its arguments and the     *)
(* context of its caller.                                                                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad
tv == <<l, st, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
If(ok, b) == IF ok THEN {} ELSE {b}
\* st: job -> [p |-> pauses, w |-> wakes so far]
After(e) == CASE e.n = "call" -> [x \in DOMAIN st \cup {e.j} |-> IF x = e.j THEN [p |-> e.p, w |-> 0] ELSE st[x]]
              [] e.n = "wake" -> [st EXCEPT ![e.j].w = @ + 1]
              [] OTHER -> st
Over(s) == s.w >= s.p
Judge(e) ==
  LET s == After(e) IN
  (IF e.n # "call" THEN {} ELSE
     If(e.early = 0, B(e, "call.waits", 0, e.early)) \cup If(e.back = (IF e.kind = "soon" THEN "none" ELSE "task"), B(e, "call.returns", e.kind, e.back)))
  \cup UNION {LET q == e.jobs[x] r == s[q.j] IN
       If(q.starts = 1, B(e, "starts", 1, q.starts))
       \cup If(q.pauses = (IF Over(r) THEN r.p ELSE r.w + 1), B(e, "goes.on", IF Over(r) THEN r.p ELSE r.w + 1, q.pauses))
       \cup If(q.ends = (IF Over(r) THEN 1 ELSE 0), B(e, "ends", IF Over(r) THEN 1 ELSE 0, q.ends))
       \cup If(Over(r) \/ q.alive = 1, B(e, "lost", 1, q.alive))
       \cup If(~(Over(r) /\ e.n = "gc") \/ q.alive = 0, B(e, "left.behind", 0, q.alive))
       \cup If(q.args = 1, B(e, "arguments", 1, q.args)) \cup If(q.ctx = 1, B(e, "context", 1, q.ctx)) : x \in DOMAIN e.jobs}
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ IF e.ev = "reset" THEN st' = [x \in {} |-> 0] /\ UNCHANGED bad
     ELSE st' = After(e) /\ bad' = bad \cup Judge(e)
TInit == l = 1 /\ st = [x \in {} |-> 0] /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
