----------------------------- MODULE ErrorStates ----------------------------
(* Error states: id (case folded) -> [n: count, d: description of the first raise]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Inc(s, k, d) == IF k \in DOMAIN s THEN [s EXCEPT ![k].n = @ + 1] ELSE (k :> [n |-> 1, d |-> d]) @@ s
Some(s, k, n) == IF k \notin DOMAIN s \/ n < 0 THEN s ELSE [s EXCEPT ![k].n = IF @ >= n THEN @ - n ELSE 0]
All(s, k) == IF k \in DOMAIN s THEN [s EXCEPT ![k].n = 0] ELSE s
Clr(s, k, n) == IF n = 0 THEN All(s, k) ELSE Some(s, k, n)
Shown(s) == {<<k, s[k].d, s[k].n>> : k \in {x \in DOMAIN s : s[x].n > 0}}
CONSTANTS Ids, Variants, MaxN
VARIABLES s, op
vars == <<s, op>>
Init == s = << >> /\ op = <<"init", 0, 0, 0>>
Next == \E k \in Ids, v \in Variants :
          \/ (IF k \in DOMAIN s THEN s[k].n < MaxN ELSE TRUE) /\ s' = Inc(s, k, v) /\ op' = <<"einc", k, v, 0>>
          \/ \E n \in 0..(MaxN + 1) : s' = Some(s, k, n) /\ op' = <<"esome", k, v, n>>
          \/ s' = All(s, k) /\ op' = <<"eall", k, v, 0>>
          \/ \E n \in 0..2 : s' = Clr(s, k, n) /\ op' = <<"eclr", k, v, n>>
Spec == Init /\ [][Next]_vars
NonNeg == \A k \in DOMAIN s : s[k].n >= 0
OneOnly == [][Cardinality({k \in DOMAIN s' : IF k \in DOMAIN s THEN s'[k] # s[k] ELSE TRUE}) <= 1]_vars
KeepsText == [][\A k \in DOMAIN s : s'[k].d = s[k].d]_vars
=============================================================================
