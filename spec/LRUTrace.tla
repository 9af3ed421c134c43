------------------------------ MODULE LRUTrace ------------------------------
EXTENDS LRU, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, s, skip, bad
tv == <<l, m, s, skip, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Rng(q) == {q[i] : i \in DOMAIN q}
(* a listing shows every present entry exactly once, in any order *)
Listed(q, want) == Len(q) = Cardinality(want) /\ Rng(q) = want
Pairs == Rng(s)
KeysOf == {x[1] : x \in Rng(s)}
LBad(e) ==
  CASE e.o \in {"keys", "iter"} -> IF Listed(e.r, KeysOf) THEN {} ELSE {B(e, "list." \o e.o, KeysOf, e.r)}
    [] e.o = "items"  -> IF Listed(e.r, Pairs) THEN {} ELSE {B(e, "list.items", Pairs, e.r)}
    [] e.o = "values" -> IF Len(e.r) = Len(s) /\ \A v \in Rng(e.r) \cup {x[2] : x \in Pairs} :
                              Cardinality({i \in DOMAIN e.r : e.r[i] = v}) = Cardinality({x \in Pairs : x[2] = v})
                         THEN {} ELSE {B(e, "list.values", Pairs, e.r)}
    [] OTHER -> {}
(* touch: iterate over the keys and read every one of them *)
RECURSIVE TouchAll(_, _)
TouchAll(q, ks) == IF ks = <<>> THEN q ELSE TouchAll(IF Has(q, Head(ks)) THEN Front(q, Head(ks)) ELSE q, Tail(ks))
TInit == l = 1 /\ m = 0 /\ s = <<>> /\ skip = FALSE /\ bad = {}
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> m' = e.m /\ s' = <<>> /\ skip' = FALSE /\ bad' = bad
       [] e.ev # "reset" /\ skip -> UNCHANGED <<m, s, skip, bad>>
       [] e.ev = "op" /\ ~skip /\ e.o = "touch" ->
            LET b == IF Listed(e.r, KeysOf) THEN {} ELSE {B(e, "list.touch", KeysOf, e.r)} IN
            s' = TouchAll(s, e.r) /\ bad' = bad \cup b /\ skip' = (b # {}) /\ UNCHANGED m
       [] e.ev = "op" /\ ~skip /\ e.o \in {"keys", "iter", "items", "values"} ->
            LET b == LBad(e) IN bad' = bad \cup b /\ skip' = (b # {}) /\ UNCHANGED <<m, s>>
       [] OTHER ->
            LET a == Apply(m, s, e.o, e.k, e.v)
                b == IF e.x # "" THEN {B(e, "raise." \o e.o, a.r, e.x)} ELSE IF a.r = e.r THEN {} ELSE {B(e, "result." \o e.o, a.r, e.r)} IN
            s' = a.s /\ bad' = bad \cup b /\ skip' = (b # {}) /\ UNCHANGED m
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
