------------------------------- MODULE Stats --------------------------------
(* The statistics of an application: calls that succeeded are counted, with their durations, in the *)
(* period in which they ended; user values; snapshots, newest first, at most HL of them.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
(* ---- percentiles as documented (exclusive interpolation), durations as integers: 100 * value ---- *)
Insert(q, x) == LET i == Cardinality({j \in DOMAIN q : q[j] <= x}) IN SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Pct(q, p) ==
  LET n == Len(q) IN
  IF n = 0 THEN -100 ELSE IF n = 1 THEN 100 * q[1]
  ELSE LET r == p * (n + 1)
           j == IF r \div 100 < 1 THEN 1 ELSE IF r \div 100 > n - 1 THEN n - 1 ELSE r \div 100
           d == r - j * 100
       IN q[j] * (100 - d) + q[j + 1] * d
Unit(d) == d       (* the unit of durations is chosen by the driver *)
(* ---- state: [e: endpoint -> sorted durations, u: key -> value, h: snapshots] ---- *)
EpView(e) == [x \in DOMAIN e |-> <<Len(e[x]), Pct(e[x], 95), Pct(e[x], 99)>>]
View(s, q) == [e |-> EpView(s.e), u |-> s.u, q |-> q]
Call(s, x, d) == [s EXCEPT !.e[x] = Insert(@, d)]
SetU(s, k, v) == [s EXCEPT !.u = (k :> v) @@ @]
GetU(s, k) == IF k \in DOMAIN s.u THEN s.u[k] ELSE 0
Trim(h, n) == IF Len(h) > n THEN SubSeq(h, 1, n) ELSE h
Gather(s, q, hl) == [e |-> [x \in DOMAIN s.e |-> <<>>], u |-> [k \in DOMAIN s.u |-> 0], h |-> Trim(<<View(s, q)>> \o s.h, hl)]
Fresh(eps) == [e |-> [x \in eps |-> <<>>], u |-> << >>, h |-> <<>>]
(* ---- model: calls that take time, gathering in between ---- *)
CONSTANTS Eps, Durs, HL, Max, Users, LateCount
VARIABLES s, fly, done, sum, op
vars == <<s, fly, done, sum, op>>
Init == s = Fresh(Eps) /\ fly = [x \in Eps |-> 0] /\ done = [x \in Eps |-> 0] /\ sum = [x \in Eps |-> 0] /\ op = <<"init", 0, 0>>
Total == [x \in Eps |-> done[x] + fly[x]]
Begin(x) == Total[x] < Max /\ fly' = [fly EXCEPT ![x] = @ + 1] /\ op' = <<"begin", x, 0>> /\ UNCHANGED <<s, done, sum>>
End(x, d) == /\ fly[x] > 0 /\ fly' = [fly EXCEPT ![x] = @ - 1] /\ s' = Call(s, x, d)
             /\ done' = [done EXCEPT ![x] = @ + 1] /\ op' = <<"end", x, d>> /\ UNCHANGED sum
Fail(x) == fly[x] > 0 /\ fly' = [fly EXCEPT ![x] = @ - 1] /\ op' = <<"fail", x, 0>> /\ UNCHANGED <<s, done, sum>>
User(k, v) == s' = SetU(s, k, v) /\ op' = <<"set", k, v>> /\ UNCHANGED <<fly, done, sum>>
Gat == /\ \E x \in Eps : done[x] > 0
       /\ s' = Gather(s, << >>, HL) /\ op' = <<"gather", 0, 0>>
       (* LateCount: the counters are reset before the snapshot is taken (a design that loses counts) *)
       /\ sum' = [x \in Eps |-> sum[x] + (IF LateCount THEN 0 ELSE Len(s.e[x]))]
       /\ UNCHANGED <<fly, done>>
Next == \/ \E x \in Eps : Begin(x) \/ Fail(x) \/ \E d \in Durs : End(x, d)
        \/ \E k \in Users, v \in {1, 2} : User(k, v)
        \/ Gat
Spec == Init /\ [][Next]_vars
Bound == Len(s.h) < 4
(* ---- properties ---- *)
Conserved == \A x \in Eps : done[x] = sum[x] + Len(s.e[x])
Bounded   == Len(s.h) <= HL
Newest    == [][s'.h # s.h => s'.h = Trim(<<View(s, << >>)>> \o s.h, HL)]_vars
Restarts  == [][s'.h # s.h => \A x \in Eps : s'.e[x] = <<>>]_vars
Sane      == \A x \in Eps : LET q == s.e[x] IN \A i, j \in DOMAIN q : i < j => q[i] <= q[j]
=============================================================================
