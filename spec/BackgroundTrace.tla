--------------------------- MODULE BackgroundTrace ----------------------------
(* Lives of real applications with tasks of their own. life [tasks |-> <<[j, clean]>>]; start / beat / over / fail /      *)
(* cancel [j] as the tasks note them; queued [j]: the clean-up of j has given a message to a buffered sender; req: an     *)
(* endpoint runs; op [n, j, st, beats]: a request, what it was answered and how often task j was seen to go on since;     *)
(* end: the application is about to be ended; down [x]: the process has ended; boot [n]: what the sender has queued.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, beats, phase, due, bad
tv == <<l, st, beats, phase, due, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
If(ok, b) == IF ok THEN {} ELSE {b}
Js(e) == {e.tasks[k].j : k \in 1..Len(e.tasks)}
In(x) == {j \in DOMAIN st : st[j] = x}
Set(j, x) == [k \in DOMAIN st |-> IF k = j THEN x ELSE st[k]]
TInit == l = 1 /\ st = [j \in {} |-> "new"] /\ beats = [j \in {} |-> 0] /\ phase = "down" /\ due = 0 /\ bad = {}
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> st' = [j \in {} |-> "new"] /\ beats' = [j \in {} |-> 0] /\ phase' = "down" /\ due' = 0 /\ bad' = bad
       [] e.ev = "life" -> st' = [j \in Js(e) |-> "new"] /\ beats' = [j \in Js(e) |-> 0] /\ phase' = "up" /\ UNCHANGED <<due, bad>>
       [] e.ev = "start" -> bad' = bad \cup If(st[e.j] = "new", B(e, "started.again", e.j, st[e.j])) /\ st' = Set(e.j, "run") /\ UNCHANGED <<beats, phase, due>>
       [] e.ev = "beat" -> bad' = bad \cup If(st[e.j] = "run", B(e, "goes.on", e.j, st[e.j])) /\ beats' = [beats EXCEPT ![e.j] = @ + 1] /\ UNCHANGED <<st, phase, due>>
       [] e.ev \in {"over", "fail"} -> st' = Set(e.j, e.ev) /\ UNCHANGED <<beats, phase, due, bad>>
       [] e.ev = "cancel" -> bad' = bad \cup If(phase = "ending", B(e, "cancelled.early", phase, e.j)) \cup If(st[e.j] = "run", B(e, "cancelled", e.j, st[e.j]))
                             /\ st' = Set(e.j, "cleaned") /\ UNCHANGED <<beats, phase, due>>
       [] e.ev = "queued" -> due' = due + 1 /\ UNCHANGED <<st, beats, phase, bad>>
       [] e.ev = "req" -> bad' = bad \cup If(In("new") = {}, B(e, "before.requests", {}, In("new"))) /\ UNCHANGED <<st, beats, phase, due>>
       [] e.ev = "op" -> bad' = bad \cup If(e.st = 0, B(e, "serves", 0, e.st))
                                    \cup (IF e.n = "beat" THEN If(beats[e.j] = e.beats, B(e, "beats", e.beats, beats[e.j])) ELSE {})
                                    \cup (IF e.n = "finish" THEN If(st[e.j] = "over", B(e, "finishes", "over", st[e.j])) ELSE {})
                         /\ UNCHANGED <<st, beats, phase, due>>
       [] e.ev = "end" -> phase' = "ending" /\ UNCHANGED <<st, beats, due, bad>>
       [] e.ev = "down" -> bad' = bad \cup If(e.x = "exit", B(e, "exit", "exit", e.x)) \cup If(phase = "ending", B(e, "stays", "up", e.x))
                                      \cup If(In("run") \cup In("new") = {}, B(e, "cleanup", {}, In("run") \cup In("new")))
                           /\ phase' = "down" /\ UNCHANGED <<st, beats, due>>
       [] e.ev = "boot" -> bad' = bad \cup If(e.n = due, B(e, "kept", due, e.n)) /\ UNCHANGED <<st, beats, phase, due>>
       [] OTHER -> UNCHANGED <<st, beats, phase, due, bad>>
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
