------------------------------- MODULE Detached -------------------------------
(* Work that is handed over and that nobody waits for: it starts after the caller went on, runs to its end  *)
(* once, whatever is collected in the meantime, fails on its own, and leaves nothing behind.                 *)
EXTENDS Naturals, FiniteSets
CONSTANTS Jobs, MaxPauses, Keeps
VARIABLES st, left, kept, runs, op
vars == <<st, left, kept, runs, op>>
Kinds == {"soon", "task", "loop"}
Ends == {"ok", "raise"}
Init == st = [j \in Jobs |-> "new"] /\ left = [j \in Jobs |-> 0] /\ kept = {} /\ runs = [j \in Jobs |-> 0] /\ op = <<"init", 0, "none", "none", 0>>
\* the job is handed over with a number of points it will wait at
Call(j, k, e, p) == /\ st[j] = "new" /\ \A x \in Jobs : x < j => st[x] # "new"
                    /\ st' = [st EXCEPT ![j] = "waiting"] /\ left' = [left EXCEPT ![j] = p]
                    /\ kept' = IF Keeps THEN kept \cup {j} ELSE kept
                    /\ runs' = [runs EXCEPT ![j] = @ + 1]
                    /\ op' = <<"call", j, k, e, p>>
Wake(j) == /\ st[j] = "waiting" /\ left[j] > 0
           /\ left' = [left EXCEPT ![j] = @ - 1] /\ op' = <<"wake", j, "none", "none", 0>> /\ UNCHANGED <<st, kept, runs>>
End(j) == /\ st[j] = "waiting" /\ left[j] = 0
          /\ st' = [st EXCEPT ![j] = "over"] /\ kept' = kept \ {j} /\ op' = <<"end", j, "none", "none", 0>> /\ UNCHANGED <<left, runs>>
Collect == /\ st' = [j \in Jobs |-> IF st[j] = "waiting" /\ j \notin kept THEN "lost" ELSE st[j]]
           /\ op' = <<"gc", 0, "none", "none", 0>> /\ UNCHANGED <<left, kept, runs>>
Next == Collect \/ \E j \in Jobs : Wake(j) \/ End(j) \/ \E k \in Kinds, e \in Ends, p \in 0..MaxPauses : Call(j, k, e, p)
Spec == Init /\ [][Next]_vars
NeverLost == \A j \in Jobs : st[j] # "lost"
Once == \A j \in Jobs : runs[j] <= 1 /\ (st[j] # "new" => runs[j] = 1)
NothingLeft == \A j \in Jobs : st[j] = "over" => j \notin kept
=============================================================================
