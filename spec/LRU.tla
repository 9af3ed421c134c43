-------------------------------- MODULE LRU ---------------------------------
(* A least-recently-used cache: a sequence of <<key, value>>, the most recently used first.         *)
EXTENDS Naturals, Integers, Sequences
Has(s, k) == \E i \in DOMAIN s : s[i][1] = k
Idx(s, k) == CHOOSE i \in DOMAIN s : s[i][1] = k
Val(s, k) == s[Idx(s, k)][2]
Del(s, k) == SelectSeq(s, LAMBDA x : x[1] # k)
Front(s, k) == <<s[Idx(s, k)]>> \o Del(s, k)
(* [s, r]: state after, result (-1: default / nothing / missing) *)
Put(m, s, k, v) ==
  IF Has(s, k) THEN <<<<k, v>>>> \o Del(s, k)
  ELSE <<<<k, v>>>> \o (IF Len(s) < m THEN s ELSE SubSeq(s, 1, Len(s) - 1))
Apply(m, s, o, k, v) ==
  CASE o = "put"   -> [s |-> Put(m, s, k, v), r |-> <<>>]
    [] o \in {"get", "item"} -> IF Has(s, k) THEN [s |-> Front(s, k), r |-> <<Val(s, k)>>] ELSE [s |-> s, r |-> <<>>]
    [] o = "peek"  -> [s |-> s, r |-> IF Has(s, k) THEN <<Val(s, k)>> ELSE <<>>]
    [] o = "in"    -> [s |-> s, r |-> IF Has(s, k) THEN <<1>> ELSE <<0>>]
    [] o = "popi"  -> IF Has(s, k) THEN [s |-> Del(s, k), r |-> <<Val(s, k)>>] ELSE [s |-> s, r |-> <<>>]
    [] o = "del"   -> [s |-> Del(s, k), r |-> <<>>]
    [] o = "pop"   -> IF s = <<>> THEN [s |-> s, r |-> <<>>] ELSE [s |-> Tail(s), r |-> <<s[1][1], s[1][2]>>]
    [] o = "clear" -> [s |-> <<>>, r |-> <<>>]
    [] o = "len"   -> [s |-> s, r |-> <<Len(s)>>]
    [] OTHER       -> [s |-> s, r |-> <<>>]
=============================================================================
