---------------------------- MODULE SpanKeysTrace -----------------------------
(* What the real span keys did. Keys are <<trace, span>> by number, <<0, 0>> is "not recognisable".        *)
(* new k; to f: got |-> the pair the encoded form stands for; put: got |-> size of the mapping;             *)
(* has k: got; eq k: got; bad: how, got |-> 1 if refused; gen: got |-> number of different keys of n.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur, store, bad
tv == <<l, cur, store, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
If(ok, b) == IF ok THEN {} ELSE {b}
K(e) == <<e.a, e.b>>
Judge(e) ==
  CASE e.ev = "to"  -> If(<<e.ga, e.gb>> = cur, B(e, "form." \o e.f, cur, <<e.ga, e.gb>>)) \cup If(e.canon = 1, B(e, "form.canonical." \o e.f, 1, e.canon))
    [] e.ev = "put" -> If(e.got = Cardinality(store \cup {cur}), B(e, "mapping.size", Cardinality(store \cup {cur}), e.got))
    [] e.ev = "has" -> If(e.got = (IF K(e) \in store THEN 1 ELSE 0), B(e, "mapping.has", K(e) \in store, e.got))
    [] e.ev = "eq"  -> LET w == IF K(e) = cur THEN <<1, 1, 0>> ELSE <<0, 0, 1>> IN
                       If(<<e.obj, e.txt, e.ne>> = w, B(e, "equality", w, <<e.obj, e.txt, e.ne>>))
    [] e.ev = "bad" -> If(e.got = 1, B(e, "refused." \o e.how, 1, e.got))
    [] e.ev = "gen" -> If(e.got = e.n, B(e, "generated.unique", e.n, e.got))
    [] OTHER -> {}
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ bad' = bad \cup Judge(e)
  /\ CASE e.ev = "reset" -> cur' = <<0, 0>> /\ store' = {}
       [] e.ev = "new" -> cur' = K(e) /\ UNCHANGED store
       [] e.ev = "put" -> store' = store \cup {cur} /\ UNCHANGED cur
       [] OTHER -> UNCHANGED <<cur, store>>
TInit == l = 1 /\ cur = <<0, 0>> /\ store = {} /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
