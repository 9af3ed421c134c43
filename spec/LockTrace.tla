------------------------------ MODULE LockTrace -------------------------------
(* Histories of real processes: begin p, up p, refused p, gone p. Processes are named; key[p] is the  *)
(* application, instance and lock directory it was started with.                                      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, seen, bad         \* st: p -> [k, s]; seen: p -> somebody of the same key was there since its begin
tv == <<l, st, seen, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Here(p) == st[p].s \in {"starting", "up"}
Peers(p, k) == {q \in DOMAIN st : q # p /\ st[q].k = k /\ Here(q)}
Set(f, p, v) == [q \in (DOMAIN f) \cup {p} |-> IF q = p THEN v ELSE f[q]]
TInit == l = 1 /\ st = <<>> /\ seen = <<>> /\ bad = {}
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> st' = <<>> /\ seen' = <<>> /\ bad' = bad
       [] e.ev = "begin" ->
            /\ st' = Set(st, e.p, [k |-> e.k, s |-> "starting"])
            /\ seen' = [q \in DOMAIN st \cup {e.p} |-> IF q = e.p THEN Peers(e.p, e.k) # {} ELSE seen[q] \/ (st[q].k = e.k /\ st[q].s = "starting")]
            /\ bad' = bad
       [] e.ev = "up" ->
            /\ st' = [st EXCEPT ![e.p].s = "up"] /\ seen' = seen
            /\ bad' = bad \cup (IF \E q \in Peers(e.p, st[e.p].k) : st[q].s = "up" THEN {B(e, "two.running", "refused", "started")} ELSE {})
       [] e.ev = "refused" ->
            /\ st' = [st EXCEPT ![e.p].s = "refused"] /\ seen' = seen
            /\ bad' = bad \cup (IF seen[e.p] THEN {} ELSE {B(e, "stuck", "started", e.x)})
                          \cup (IF e.x = "InstanceAlreadyRunningException" THEN {} ELSE {B(e, "refusal", "InstanceAlreadyRunningException", e.x)})
                          \cup (IF e.touched = <<>> THEN {} ELSE {B(e, "touched", <<>>, e.touched)})
       [] e.ev = "gone" -> st' = [st EXCEPT ![e.p].s = "gone"] /\ seen' = seen /\ bad' = bad
       (* an application that is up answers on its socket and still has what was queued *)
       [] e.ev = "alive" -> UNCHANGED <<st, seen>> /\ bad' = bad \cup (IF e.ok = 1 THEN {} ELSE {B(e, "disturbed", "answers", e.x)})
       [] OTHER -> UNCHANGED <<st, seen, bad>>
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
