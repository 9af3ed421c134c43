------------------------------- MODULE Declare --------------------------------
(* Functions are declared for route keys, in any order and more than once; senders are called with or   *)
(* without a span key. What runs is the function that had the route first, once per request, with what    *)
(* it declares; a request without a span key gets one that no other request has.                          *)
EXTENDS DeclareOps, Sequences
CONSTANTS Routes, Fns, Own, Fresh, MaxReq
VARIABLES table, decls, reqs, runs, free
vars == <<table, decls, reqs, runs, free>>
Sigs == [ps : {{}, {"dto"}, {"span_key"}, {"dto", "span_key"}}, need : {{}, {"who"}}, ty : {"A", "B"}, kind : {"ep"}]
Datas == {[id |-> 1], [id |-> 1, v |-> 2]}
Init == table = [x \in {} |-> 0] /\ decls = <<>> /\ reqs = <<>> /\ runs = {} /\ free = Fresh
Dec == /\ Len(decls) < Cardinality(Fns) /\ reqs = <<>>
       /\ \E r \in Routes, s \in Sigs : LET d == [ps |-> s.ps, need |-> s.need, ty |-> s.ty, kind |-> s.kind, f |-> Len(decls) + 1] IN
            decls' = Append(decls, [r |-> r, d |-> d]) /\ table' = Declare(table, r, d)
       /\ UNCHANGED <<reqs, runs, free>>
Send == /\ Len(reqs) < MaxReq
        /\ \E r \in Routes, d \in Datas :
             \/ \E k \in Own : reqs' = Append(reqs, [r |-> r, d |-> d, k |-> k, own |-> TRUE, o |-> ""]) /\ UNCHANGED free
             \/ \E k \in free : reqs' = Append(reqs, [r |-> r, d |-> d, k |-> k, own |-> FALSE, o |-> ""]) /\ free' = free \ {k}
        /\ UNCHANGED <<table, decls, runs>>
Handle(i) == /\ reqs[i].o = ""
             /\ LET q == reqs[i] IN
                /\ reqs' = [reqs EXCEPT ![i].o = Outcome(table, q.r, q.d)]
                /\ runs' = IF Runs(table, q.r, q.d) = 0 THEN runs
                           ELSE runs \cup {[i |-> i, f |-> table[q.r].f, got |-> Given(table[q.r]), k |-> q.k, fl |-> Cast(table[q.r].ty, q.d)]}
             /\ UNCHANGED <<table, decls, free>>
Next == Dec \/ Send \/ \E i \in DOMAIN reqs : Handle(i)
Spec == Init /\ [][Next]_vars
FirstWins == \A r \in DOMAIN table : \E j \in DOMAIN decls : decls[j].r = r /\ decls[j].d = table[r] /\ \A x \in 1..j-1 : decls[x].r # r
OnceEach == \A i \in DOMAIN reqs : Cardinality({x \in runs : x.i = i}) = (IF reqs[i].o = "ok" THEN 1 ELSE 0)
Only == \A x \in runs : \A j \in DOMAIN decls : decls[j].d.f = x.f => (x.got \subseteq decls[j].d.ps /\ decls[j].r = reqs[x.i].r)
FreshKeys == \A i, j \in DOMAIN reqs : (i # j /\ ~reqs[i].own) => reqs[i].k # reqs[j].k
=============================================================================
