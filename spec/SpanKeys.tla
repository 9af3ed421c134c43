------------------------------- MODULE SpanKeys -------------------------------
(* A span key is a pair (trace, span). It travels: each form it takes stands for the same pair, and two     *)
(* span keys are the same, as values and as keys of a mapping, exactly when both halves are.                *)
EXTENDS Naturals, FiniteSets
CONSTANTS Traces, Spans, Forms, Lossy
VARIABLES cur, orig, form, store, op
vars == <<cur, orig, form, store, op>>
Keys == Traces \X Spans
Shown(k) == IF Lossy THEN <<k[1], 0>> ELSE k              \* sanity: an encoding that drops one half
Init == cur = <<0, 0>> /\ orig = <<0, 0>> /\ form = "none" /\ store = {} /\ op = <<"init", 0, 0, "none">>
New(k) == cur' = k /\ orig' = k /\ form' = "obj" /\ op' = <<"new", k[1], k[2], "obj">> /\ UNCHANGED store
To(f) == form # "none" /\ f # form /\ form' = f /\ cur' = Shown(cur) /\ op' = <<"to", 0, 0, f>> /\ UNCHANGED <<orig, store>>
Put == form # "none" /\ store' = store \cup {cur} /\ op' = <<"put", 0, 0, form>> /\ UNCHANGED <<cur, orig, form>>
Has(k) == form # "none" /\ op' = <<"has", k[1], k[2], form>> /\ UNCHANGED <<cur, orig, form, store>>
Eq(k) == form # "none" /\ op' = <<"eq", k[1], k[2], form>> /\ UNCHANGED <<cur, orig, form, store>>
Next == (\E k \in Keys : New(k) \/ Has(k) \/ Eq(k)) \/ (\E f \in Forms : To(f)) \/ Put
Spec == Init /\ [][Next]_vars
Identity == cur = orig
Distinct == Cardinality(store) <= Cardinality(Keys) /\ store \subseteq Keys
=============================================================================
