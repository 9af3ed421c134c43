------------------------------ MODULE AbsQueue ------------------------------
(* The queue every user of a persisted queue may assume: one in-order list of items with unique     *)
(* span keys.  Pure operators; used by PagedQueue (refinement), by the buffered endpoint / sender   *)
(* specification, and by the trace specifications.                                                  *)
EXTENDS Naturals, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

QHas(q, k)      == \E i \in DOMAIN q : q[i].k = k
QIdx(q, k)      == CHOOSE i \in DOMAIN q : q[i].k = k
QRemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
QRemove(q, k)   == IF QHas(q, k) THEN QRemoveAt(q, QIdx(q, k)) ELSE q
QPush(q, it)    == IF QHas(q, it.k) THEN q ELSE Append(q, it)      \* an absorbed push changes nothing
QGet(q, k)      == q[QIdx(q, k)]
QFirst(q, n)    == [i \in 1..Min2(n, Len(q)) |-> q[i].k]
QKeySeq(q)      == [i \in DOMAIN q |-> q[i].k]
QUnique(q)      == \A i, j \in DOMAIN q : q[i].k = q[j].k => i = j

RECURSIVE QPushAll(_, _)
QPushAll(q, its) == IF its = <<>> THEN q ELSE QPushAll(QPush(q, Head(its)), Tail(its))

(* One operation: the queue after it, and its result as a sequence. o = [n, k, v] *)
QApply(q, o) ==
  CASE o.n = "push"    -> [q |-> QPush(q, [k |-> o.k, v |-> o.v]), r |-> <<o.k>>]
    [] o.n = "pop"     -> IF q = <<>> THEN [q |-> q, r |-> <<>>] ELSE [q |-> Tail(q), r |-> <<Head(q).v>>]
    [] o.n = "popk"    -> IF QHas(q, o.k) THEN [q |-> QRemove(q, o.k), r |-> <<QGet(q, o.k).v>>]
                                          ELSE [q |-> q, r |-> <<>>]
    [] o.n = "inspect" -> [q |-> q, r |-> IF QHas(q, o.k) THEN <<QGet(q, o.k).v>> ELSE <<>>]
    [] o.n = "first"   -> [q |-> q, r |-> QFirst(q, o.k)]
    [] o.n = "size"    -> [q |-> q, r |-> <<Len(q)>>]
    [] o.n = "empty"   -> [q |-> q, r |-> <<IF q = <<>> THEN 1 ELSE 0>>]
    [] o.n = "clear"   -> [q |-> <<>>, r |-> <<>>]
    [] o.n = "restart" -> [q |-> q, r |-> <<>>]

(* What a kill may leave behind: a contiguous run, at most ps items missing at either end. *)
CrashSurvivors(q, ps) ==
  { SubSeq(q, i, j) : i \in 1..Min2(ps, Len(q)) + 1, j \in Max2(0, Len(q) - ps)..Len(q) }
=============================================================================
