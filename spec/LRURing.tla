------------------------------ MODULE LRURing -------------------------------
(* The cache as the code keeps it: a ring of linked nodes, head = most recently used, nodes that    *)
(* became empty are moved to the end and used again. Refines LRU. StaleTail: take the place of new  *)
(* nodes from a tail pointer that is only set once (the defect that was repaired).                  *)
EXTENDS LRU, FiniteSets, TLC
CONSTANTS M, Keys, Vals, StaleTail
VARIABLES nx, pv, ky, vl, head, tail, n, abs, op
vars == <<nx, pv, ky, vl, head, tail, n, abs, op>>
Nodes == 1..n
NodeOf(k) == CHOOSE i \in Nodes : ky[i] = k
In(k) == \E i \in Nodes : ky[i] = k
Count == Cardinality({i \in Nodes : ky[i] # 0})
Init == nx = <<>> /\ pv = <<>> /\ ky = <<>> /\ vl = <<>> /\ head = 0 /\ tail = 0 /\ n = 0 /\ abs = <<>> /\ op = <<"init", 0, 0>>
(* move node i to the end of the ring: new links [nx, pv, head] *)
ToEnd(i) ==
  IF i = head THEN [nx |-> nx, pv |-> pv, head |-> nx[i]]
  ELSE LET n1 == [nx EXCEPT ![pv[i]] = nx[i]]  p1 == [pv EXCEPT ![nx[i]] = pv[i]]
           p2 == [p1 EXCEPT ![i] = p1[head]]   n2 == [n1 EXCEPT ![i] = head]
           n3 == [n2 EXCEPT ![p2[head]] = i]   p3 == [p2 EXCEPT ![head] = i]
       IN [nx |-> n3, pv |-> p3, head |-> head]
ToFront(i) == IF i = head THEN [nx |-> nx, pv |-> pv, head |-> head] ELSE [ToEnd(i) EXCEPT !.head = i]
Set(l) == nx' = l.nx /\ pv' = l.pv /\ head' = l.head
Spec0(o, k, v) == abs' = Apply(M, abs, o, k, v).s /\ op' = <<o, k, v>>
Put1(k, v) ==
  /\ Spec0("put", k, v)
  /\ IF In(k) THEN Set(ToFront(NodeOf(k))) /\ vl' = [vl EXCEPT ![NodeOf(k)] = v] /\ UNCHANGED <<ky, tail, n>>
     ELSE IF Count < M /\ (n = 0 \/ StaleTail \/ ky[pv[head]] # 0) THEN    \* a new node
       /\ n' = n + 1 /\ ky' = Append(ky, k) /\ vl' = Append(vl, v) /\ head' = n + 1
       /\ IF n = 0 THEN nx' = <<1>> /\ pv' = <<1>> /\ tail' = 1
          ELSE LET t == IF StaleTail THEN tail ELSE pv[head] IN
               /\ UNCHANGED tail
               /\ nx' = Append([nx EXCEPT ![t] = n + 1], head)
               /\ pv' = Append([pv EXCEPT ![head] = n + 1], t)
     ELSE LET i == pv[head] IN                                             \* the last one, empty or least recently used
       /\ ky' = [ky EXCEPT ![i] = k] /\ vl' = [vl EXCEPT ![i] = v] /\ head' = i /\ UNCHANGED <<nx, pv, tail, n>>
Get1(k) == In(k) /\ Spec0("item", k, 0) /\ Set(ToFront(NodeOf(k))) /\ UNCHANGED <<ky, vl, tail, n>>
Del1(k) == In(k) /\ Spec0("del", k, 0) /\ Set(ToEnd(NodeOf(k))) /\ ky' = [ky EXCEPT ![NodeOf(k)] = 0] /\ UNCHANGED <<vl, tail, n>>
Pop1 == Count > 0 /\ Spec0("pop", 0, 0) /\ head' = nx[head] /\ ky' = [ky EXCEPT ![head] = 0] /\ UNCHANGED <<nx, pv, vl, tail, n>>
Clear1 == n > 0 /\ Spec0("clear", 0, 0) /\ ky' = [i \in Nodes |-> 0] /\ UNCHANGED <<nx, pv, vl, head, tail, n>>
Next == \/ \E k \in Keys : (\E v \in Vals : Put1(k, v)) \/ Get1(k) \/ Del1(k)
        \/ Pop1 \/ Clear1
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _)
Walk(i, c) == IF c = 0 THEN <<>> ELSE <<<<ky[i], vl[i]>>>> \o Walk(nx[i], c - 1)
Refines == Walk(head, Count) = abs
Bounded == Len(abs) <= M /\ n <= M
=============================================================================
