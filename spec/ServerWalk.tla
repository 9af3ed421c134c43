----------------------------- MODULE ServerWalk -----------------------------
(* Test plan: what clients can do to a server, seen between settled states. A connection has a      *)
(* queue of requests that wait: the first one is in an endpoint that waits to be released ("g"),    *)
(* the others ("p" answered at once, "g") are behind it.                                            *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Conns, MaxQ
VARIABLES st, q, part, op
vars == <<st, q, part, op>>
RECURSIVE Settle(_)
Settle(s) == IF s # <<>> /\ Head(s) = "p" THEN Settle(Tail(s)) ELSE s
Init == st = [c \in Conns |-> "closed"] /\ q = [c \in Conns |-> <<>>] /\ part = [c \in Conns |-> "-"] /\ op = <<"init">>
Open(c) == st[c] = "closed" /\ st' = [st EXCEPT ![c] = "open"] /\ op' = <<"open", c>> /\ UNCHANGED <<q, part>>
Snd(c, k) == /\ st[c] = "open" /\ part[c] = "-" /\ Len(q[c]) < MaxQ
             /\ q' = [q EXCEPT ![c] = Settle(Append(@, k))] /\ op' = <<"snd", c, k>> /\ UNCHANGED <<st, part>>
Two(c, k) == /\ st[c] = "open" /\ part[c] = "-" /\ Len(q[c]) + 1 < MaxQ
             /\ q' = [q EXCEPT ![c] = Settle(@ \o <<"p", k>>)] /\ op' = <<"two", c, k>> /\ UNCHANGED <<st, part>>
Part(c, k) == /\ st[c] = "open" /\ part[c] = "-" /\ Len(q[c]) < MaxQ
              /\ part' = [part EXCEPT ![c] = k] /\ op' = <<"part", c, k>> /\ UNCHANGED <<st, q>>
Fin(c) == /\ st[c] = "open" /\ part[c] # "-"
          /\ q' = [q EXCEPT ![c] = Settle(Append(@, part[c]))] /\ part' = [part EXCEPT ![c] = "-"] /\ op' = <<"fin", c>> /\ UNCHANGED st
Rel(c) == /\ q[c] # <<>> /\ q' = [q EXCEPT ![c] = Settle(Tail(@))]
          /\ st' = [st EXCEPT ![c] = IF @ = "half" /\ q'[c] = <<>> THEN "closed" ELSE @]
          /\ part' = [part EXCEPT ![c] = IF st'[c] = "closed" THEN "-" ELSE @] /\ op' = <<"rel", c>>
Close(c, how) == /\ st[c] = "open"
                 /\ IF how = "half" /\ q[c] # <<>> THEN st' = [st EXCEPT ![c] = "half"] /\ UNCHANGED <<q, part>>
                    ELSE st' = [st EXCEPT ![c] = "closed"] /\ q' = [q EXCEPT ![c] = <<>>] /\ part' = [part EXCEPT ![c] = "-"]
                 /\ op' = <<"close", c, how>>
Next == \E c \in Conns : Open(c) \/ Snd(c, "p") \/ Snd(c, "g") \/ Two(c, "p") \/ Two(c, "g") \/ Part(c, "p") \/ Part(c, "g")
                         \/ Fin(c) \/ Rel(c) \/ Close(c, "close") \/ Close(c, "half")
Spec == Init /\ [][Next]_vars
=============================================================================
