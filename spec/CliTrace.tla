------------------------------- MODULE CliTrace -------------------------------
(* Runs of the tools against a server that records what it is asked and answers from a script.         *)
(* e: c |-> command line, reqs |-> requests the server got, in order (the same request sent again over   *)
(*    UDP counts once), status |-> status of the scripted answers, ans |-> per answer [msg, seen |-> is   *)
(*    the text of the answer in the output, vals |-> JSON values of the answer], json |-> JSON values in  *)
(*    the output, rc |-> exit status                                                                      *)
EXTENDS Cli, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Diff(e, c, w, g) == IF w = g THEN {} ELSE {B(e, c, w, g)}
Rng(q) == {q[j] : j \in DOMAIN q}
Got(e) == [j \in DOMAIN e.reqs |-> Req(e.reqs[j].route, e.reqs[j].arg, e.reqs[j].sk)]
Line(e) ==
  LET want == Requests(e.c)  got == Got(e) IN
  IF Refused(e.c) THEN Diff(e, "refused.sent", <<>>, got) \cup (IF e.rc # 0 THEN {} ELSE {B(e, "refused.status", "not 0", e.rc)})
  ELSE IF want = <<>> THEN Diff(e, "sent", want, got) \cup Diff(e, "exit", 0, e.rc)
  ELSE IF e.status = 0 THEN
         Diff(e, "sent", want, got) \cup Diff(e, "exit", 0, e.rc)
         \cup (IF want # got THEN {} ELSE
               UNION {Diff(e, "output.text", 1, e.ans[j].seen) : j \in DOMAIN e.ans}
               \cup UNION {UNION {IF v \in Rng(e.json) THEN {} ELSE {B(e, "output.value", v, e.json)} : v \in Rng(e.ans[j].vals)} : j \in DOMAIN e.ans})
  ELSE (IF got # <<>> /\ Rng(got) \subseteq Rng(want) THEN {} ELSE {B(e, "sent", want, got)})
       \cup (IF e.rc # 0 THEN {} ELSE {B(e, "failed.status", "not 0", e.rc)})
Step == /\ l' = l + 1
        /\ bad' = bad \cup Line(Trace[l])
TInit == l = 1 /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_<<l, bad>>
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
