---------------------------- MODULE BufferedWalk ----------------------------
(* The settled view (the worker always runs until it waits): its state graph is the test plan that  *)
(* is walked on the real application. `op` labels the step that led to a state.                     *)
EXTENDS BufferedOps, TLC
CONSTANTS NK, MaxR, Kind, Ops, MaxLen
VARIABLES s, op
vars == <<s, op>>
C == [kind |-> Kind, maxr |-> MaxR, slow |-> FALSE, mis |-> {}]
Do(nm, k, o) ==
  /\ nm \in Ops
  /\ LET r == Apply(C, s, [n |-> nm, k |-> k, o |-> o, m |-> 0])
         t == Settle(C, r.s, NoEv)
     IN s' = t.s /\ op' = <<nm, k, o>>
Keys == 1..NK
Init == s = Fresh /\ op = <<"init", 0, "">>
Next ==
  \/ \E k \in Keys : Do("accept", k, "")
  \/ s.inf # <<>> /\ \E o \in (IF Kind = "ep" THEN {"ok", "fail", "exc"} ELSE {"ok", "busy", "comm", "other"}) : Do("release", 0, o)
  \/ \E nm \in {"rpause", "runpause", "ppause", "punpause", "apause", "aunpause", "repall", "clear", "first10"} : Do(nm, 0, "")
  \/ \E nm \in {"pop", "repone", "inspect"}, k \in Keys : Do(nm, k, "")
  \/ Kind = "ep" /\ s.arm = "" /\ \E a \in {"a", "b"} : Do("arm", 0, a)
  \/ "term" \in Ops /\ LET t == Settle(C, Term(s), NoEv) IN s' = t.s /\ op' = <<"term", 0, "">>
Spec == Init /\ [][Next]_vars
Small == Len(s.pend) + Len(s.err) + Len(s.inf) <= MaxLen
Settled == ~CanStart(s)
=============================================================================
