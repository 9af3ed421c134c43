------------------------------- MODULE Tracing --------------------------------
(* Trace spans of an application whose requests may share span keys.                                  *)
(* A request arrives (opens its receive span), is answered (closes it) or fails; what a buffered       *)
(* endpoint accepts carries the id of its receive span through the queue, and every attempt at it is    *)
(* a process span below that one - also after a restart.                                                *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, Routes, Buffered, MaxReq, MaxTry, MaxTerm
VARIABLES reqs,    \* id -> [r, k, s |-> "in"|"ok"|"err"|"lost"]
          open,    \* spans not ended: id -> request
          q,       \* items accepted and waiting: [r, k, par |-> receive span, n]
          cur,     \* route -> <<item>> being processed
          done,    \* ended spans: [kind, r, k, par, n, ok, id]
          att,     \* attempts that came to a verdict: [r, k, par, n, ok]
          terms
vars == <<reqs, open, q, cur, done, att, terms>>
None == [k |-> 0]
Init == reqs = <<>> /\ open = {} /\ q = <<>> /\ cur = [r \in Buffered |-> <<>>] /\ done = {} /\ att = <<>> /\ terms = 0
Arrive == /\ Len(reqs) < MaxReq
          /\ \E r \in Routes, k \in Keys : reqs' = Append(reqs, [r |-> r, k |-> k, s |-> "in"])
          /\ open' = open \cup {Len(reqs) + 1} /\ UNCHANGED <<q, cur, done, att, terms>>
Queued(i) == \E j \in DOMAIN q : q[j].r = reqs[i].r /\ q[j].k = reqs[i].k
Answer(i) == /\ i \in open /\ reqs[i].s = "in"
             /\ reqs' = [reqs EXCEPT ![i].s = "ok"] /\ open' = open \ {i}
             /\ done' = done \cup {[kind |-> "rcv", id |-> i, r |-> reqs[i].r, k |-> reqs[i].k]}
             /\ q' = IF reqs[i].r \in Buffered /\ ~Queued(i) THEN Append(q, [r |-> reqs[i].r, k |-> reqs[i].k, par |-> i, n |-> 0]) ELSE q
             /\ UNCHANGED <<cur, att, terms>>
Begin(r) == /\ cur[r] = <<>> /\ \E j \in DOMAIN q :
                 /\ q[j].r = r /\ \A x \in 1..j-1 : q[x].r # r
                 /\ cur' = [cur EXCEPT ![r] = <<q[j]>>] /\ q' = SubSeq(q, 1, j-1) \o SubSeq(q, j+1, Len(q))
            /\ UNCHANGED <<reqs, open, done, att, terms>>
End(r, ok) == /\ cur[r] # <<>>
              /\ LET it == cur[r][1]  a == [r |-> r, k |-> it.k, par |-> it.par, n |-> it.n, ok |-> ok] IN
                 /\ att' = Append(att, a) /\ done' = done \cup {[kind |-> "prc", id |-> Len(att) + 1, a |-> a]}
                 /\ q' = IF ok \/ it.n + 1 >= MaxTry THEN q ELSE Append(q, [it EXCEPT !.n = it.n + 1])
              /\ cur' = [cur EXCEPT ![r] = <<>>] /\ UNCHANGED <<reqs, open, terms>>
RECURSIVE Back(_, _)
Back(qq, rs) == IF rs = {} THEN qq ELSE LET r == CHOOSE x \in rs : TRUE IN Back(qq \o cur[r], rs \ {r})
Term == /\ terms < MaxTerm /\ terms' = terms + 1 /\ open' = {}
        /\ reqs' = [i \in DOMAIN reqs |-> IF i \in open THEN [reqs[i] EXCEPT !.s = "lost"] ELSE reqs[i]]
        /\ q' = Back(q, Buffered) /\ cur' = [r \in Buffered |-> <<>>] /\ UNCHANGED <<done, att>>
Next == Arrive \/ (\E i \in DOMAIN reqs : Answer(i)) \/ (\E r \in Buffered : Begin(r) \/ \E b \in BOOLEAN : End(r, b)) \/ Term
Spec == Init /\ [][Next]_vars
Rcv == {d \in done : d.kind = "rcv"}
Prc == {d \in done : d.kind = "prc"}
OneSpanEach == /\ \A i \in DOMAIN reqs : (reqs[i].s = "ok") <=> \E d \in Rcv : d.id = i /\ d.r = reqs[i].r /\ d.k = reqs[i].k
               /\ Cardinality(Rcv) = Cardinality({i \in DOMAIN reqs : reqs[i].s = "ok"})
               /\ Cardinality(Prc) = Len(att)
(* an attempt hangs below a receive span of the same route and the same trace *)
Below == \A d \in Prc : \E c \in Rcv : c.id = d.a.par /\ c.r = d.a.r /\ c.k = d.a.k
=============================================================================
