-------------------------------- MODULE Chain ---------------------------------
(* Two applications: what A enqueues on a buffered sender travels over a connection that can lose, delay  *)
(* or refuse anything to a buffered endpoint of B. Both are terminated and started again at any time.     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys, MaxSend,     \* budget of the sender per item
          Tries,             \* attempts of the client per send
          MaxRun,            \* budget of the endpoint per item
          Faults, Terms, Reps,
          QueueFirst,        \* B queues a request before it answers
          KeepCur,           \* a terminated application keeps what it was working on
          Stored             \* a terminated application keeps its queues
VARIABLES enq, aq, acur, aerr, net, bq, bcur, berr, run, okd, up, paused, acc, amb, got, late, f, tm, rp
vars == <<enq, aq, acur, aerr, net, bq, bcur, berr, run, okd, up, paused, acc, amb, got, late, f, tm, rp>>
(* acur: <<>> or <<[k, n, t]>>; net: <<>> or <<[k, s]>> with s "req" (on its way to B), "ok", "busy" (answers) or "gone"; *)
(* okd[k]: times k was handled with success; acc[k]: times B accepted k; amb[k]: times A could not know *)
Init == /\ enq = {} /\ aq = <<>> /\ acur = <<>> /\ aerr = {} /\ net = <<>> /\ bq = <<>> /\ bcur = <<>> /\ berr = {}
        /\ run = [k \in Keys |-> 0] /\ okd = run /\ acc = run /\ amb = run /\ got = {} /\ late = {} /\ up = [x \in {"a", "b"} |-> TRUE]
        /\ paused = FALSE /\ f = 0 /\ tm = 0 /\ rp = 0
In(q, k) == \E i \in DOMAIN q : q[i].k = k
Put(q, x) == IF In(q, x.k) THEN q ELSE Append(q, x)
Enq(k) == /\ up["a"] /\ k \notin enq /\ enq' = enq \cup {k} /\ aq' = Put(aq, [k |-> k, n |-> 0])
          /\ UNCHANGED <<late, acur, aerr, net, bq, bcur, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
Pick == /\ up["a"] /\ acur = <<>> /\ aq # <<>> /\ acur' = <<[k |-> Head(aq).k, n |-> Head(aq).n, t |-> 0]>> /\ aq' = Tail(aq)
        /\ UNCHANGED <<late, enq, aerr, net, bq, bcur, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
Xmit == /\ up["a"] /\ acur # <<>> /\ net = <<>> /\ acur[1].t < Tries
        /\ net' = <<[k |-> acur[1].k, s |-> "req"]>> /\ acur' = [acur EXCEPT ![1].t = @ + 1]
        /\ UNCHANGED <<late, enq, aq, aerr, bq, bcur, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
Lose == /\ f < Faults /\ f' = f + 1 /\ net # <<>> /\ net[1].s # "gone" /\ net' = <<[net[1] EXCEPT !.s = "gone"]>>
        /\ amb' = IF net[1].s = "ok" THEN [amb EXCEPT ![net[1].k] = @ + 1] ELSE amb
        /\ UNCHANGED <<late, enq, aq, acur, aerr, bq, bcur, berr, run, okd, up, paused, acc, got, tm, rp>>
Accept == /\ up["b"] /\ net # <<>> /\ net[1].s = "req" /\ ~paused
          /\ LET k == net[1].k IN
             /\ bq' = IF QueueFirst THEN Put(bq, [k |-> k, n |-> 0]) ELSE bq
             /\ run' = IF In(bq, k) THEN run ELSE [run EXCEPT ![k] = 0]
             /\ acc' = [acc EXCEPT ![k] = @ + 1] /\ net' = <<[k |-> k, s |-> "ok"]>>
          /\ UNCHANGED <<late, enq, aq, acur, aerr, bcur, berr, okd, up, paused, amb, got, f, tm, rp>>
(* only with QueueFirst = FALSE: what was answered is queued later *)
Later(k) == /\ ~QueueFirst /\ up["b"] /\ acc[k] > 0 /\ ~In(bq, k) /\ ~In(bcur, k) /\ okd[k] = 0 /\ k \notin berr /\ bq' = Append(bq, [k |-> k, n |-> 0])
            /\ UNCHANGED <<late, enq, aq, acur, aerr, net, bcur, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
Busy == /\ up["b"] /\ net # <<>> /\ net[1].s = "req" /\ paused /\ net' = <<[net[1] EXCEPT !.s = "busy"]>>
        /\ UNCHANGED <<late, enq, aq, acur, aerr, bq, bcur, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
Dead == /\ ~up["b"] /\ net # <<>> /\ net[1].s = "req" /\ net' = <<[net[1] EXCEPT !.s = "gone"]>>
        /\ UNCHANGED <<late, enq, aq, acur, aerr, bq, bcur, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
Fail(c) == IF c.n + 1 >= MaxSend THEN aerr' = aerr \cup {c.k} /\ aq' = aq ELSE aq' = Put(aq, [k |-> c.k, n |-> c.n + 1]) /\ aerr' = aerr
Answer == /\ up["a"] /\ acur # <<>> /\ net # <<>> /\ net[1].s \in {"ok", "busy"} /\ net[1].k = acur[1].k /\ net' = <<>> /\ acur' = <<>>
          /\ IF net[1].s = "ok" THEN got' = got \cup {acur[1].k} /\ UNCHANGED <<aq, aerr>> ELSE Fail(acur[1]) /\ UNCHANGED got
          /\ UNCHANGED <<late, enq, bq, bcur, berr, run, okd, up, paused, acc, amb, f, tm, rp>>
(* the client gives up waiting: a late answer is nobody's *)
Timeout == /\ up["a"] /\ acur # <<>> /\ net # <<>> /\ (net[1].s = "gone" \/ f < Faults)
           /\ f' = IF net[1].s = "gone" THEN f ELSE f + 1
           /\ amb' = IF net[1].s # "gone" THEN [amb EXCEPT ![net[1].k] = @ + 1] ELSE amb
           /\ IF acur[1].t < Tries THEN UNCHANGED <<acur, aq, aerr>> ELSE acur' = <<>> /\ Fail(acur[1])
           /\ net' = <<>> /\ late' = IF net[1].s = "req" THEN late \cup {net[1].k} ELSE late
           /\ UNCHANGED <<enq, bq, bcur, berr, run, okd, up, paused, acc, got, tm, rp>>
(* a request given up may still be read by B *)
Late(k) == /\ k \in late /\ late' = late \ {k}
           /\ IF up["b"] /\ ~paused THEN bq' = Put(bq, [k |-> k, n |-> 0]) /\ acc' = [acc EXCEPT ![k] = @ + 1] ELSE UNCHANGED <<bq, acc>>
           /\ UNCHANGED <<enq, aq, acur, aerr, net, bcur, berr, run, okd, up, paused, amb, got, f, tm, rp>>
BPick == /\ up["b"] /\ bcur = <<>> /\ bq # <<>> /\ bcur' = <<Head(bq)>> /\ bq' = Tail(bq)
         /\ UNCHANGED <<late, enq, aq, acur, aerr, net, berr, run, okd, up, paused, acc, amb, got, f, tm, rp>>
BEnd(ok) == /\ up["b"] /\ bcur # <<>> /\ bcur' = <<>>
            /\ LET k == bcur[1].k IN
               IF ok THEN okd' = [okd EXCEPT ![k] = @ + 1] /\ UNCHANGED <<bq, berr, f>>
               ELSE /\ f < Faults /\ f' = f + 1 /\ UNCHANGED okd
                    /\ IF bcur[1].n + 1 >= MaxRun THEN berr' = berr \cup {k} /\ bq' = bq ELSE bq' = Put(bq, [k |-> k, n |-> bcur[1].n + 1]) /\ berr' = berr
            /\ UNCHANGED <<late, enq, aq, acur, aerr, net, run, up, paused, acc, amb, got, tm, rp>>
Term(x) == /\ tm < Terms /\ up[x] /\ tm' = tm + 1 /\ up' = [up EXCEPT ![x] = FALSE]
           /\ net' = IF net = <<>> THEN net ELSE IF x = "a" THEN <<>> ELSE <<[net[1] EXCEPT !.s = "gone"]>>
           /\ late' = IF x = "a" /\ net # <<>> /\ net[1].s = "req" THEN late \cup {net[1].k} ELSE late
           /\ amb' = IF net # <<>> THEN [amb EXCEPT ![net[1].k] = @ + 1] ELSE amb
           /\ IF x = "a" THEN /\ aq' = IF ~Stored THEN <<>> ELSE IF acur = <<>> \/ ~KeepCur THEN aq ELSE Put(aq, [k |-> acur[1].k, n |-> acur[1].n])
                              /\ acur' = <<>> /\ UNCHANGED <<bq, bcur>>
              ELSE /\ bq' = IF ~Stored THEN <<>> ELSE IF bcur = <<>> \/ ~KeepCur THEN bq ELSE Put(bq, bcur[1])
                   /\ bcur' = <<>> /\ UNCHANGED <<aq, acur>>
           /\ UNCHANGED <<enq, aerr, berr, run, okd, paused, acc, got, f, rp>>
Start(x) == /\ ~up[x] /\ up' = [up EXCEPT ![x] = TRUE] /\ paused' = IF x = "b" THEN FALSE ELSE paused
            /\ UNCHANGED <<late, enq, aq, acur, aerr, net, bq, bcur, berr, run, okd, acc, amb, got, f, tm, rp>>
Pause == /\ up["b"] /\ f < Faults /\ ~paused /\ f' = f + 1 /\ paused' = TRUE /\ UNCHANGED <<late, enq, aq, acur, aerr, net, bq, bcur, berr, run, okd, up, acc, amb, got, tm, rp>>
Unpause == paused /\ paused' = FALSE /\ UNCHANGED <<late, enq, aq, acur, aerr, net, bq, bcur, berr, run, okd, up, acc, amb, got, f, tm, rp>>
Reprocess(k) == /\ rp < Reps /\ rp' = rp + 1
                /\ \/ up["a"] /\ k \in aerr /\ aerr' = aerr \ {k} /\ aq' = Put(aq, [k |-> k, n |-> 0]) /\ UNCHANGED <<bq, berr>>
                   \/ up["b"] /\ k \in berr /\ berr' = berr \ {k} /\ bq' = Put(bq, [k |-> k, n |-> 0]) /\ UNCHANGED <<aq, aerr>>
                /\ UNCHANGED <<late, enq, acur, net, bcur, run, okd, up, paused, acc, amb, got, f, tm>>
Prog == Pick \/ Xmit \/ Accept \/ Busy \/ Dead \/ Answer \/ (Timeout /\ net[1].s = "gone") \/ BPick \/ BEnd(TRUE) \/ Start("a") \/ Start("b") \/ Unpause
Next == Prog \/ (\E k \in Keys : Enq(k) \/ Reprocess(k) \/ Later(k) \/ Late(k)) \/ Lose \/ Timeout \/ BEnd(FALSE) \/ Term("a") \/ Term("b") \/ Pause
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Pick) /\ WF_vars(Xmit) /\ WF_vars(Accept) /\ WF_vars(Busy) /\ WF_vars(Dead) /\ WF_vars(Answer)
             /\ WF_vars(Timeout /\ net[1].s = "gone") /\ WF_vars(BPick) /\ WF_vars(BEnd(TRUE)) /\ WF_vars(Start("a")) /\ WF_vars(Start("b")) /\ WF_vars(Unpause)
Somewhere(k) == In(aq, k) \/ In(acur, k) \/ k \in aerr \/ In(bq, k) \/ In(bcur, k) \/ k \in berr \/ okd[k] > 0
NoLoss == \A k \in enq : Somewhere(k)
(* handled at most as often as accepted, accepted more than once only where A could not know *)
NotInvented == \A k \in Keys : k \notin enq => ~Somewhere(k)
NotTooOften == \A k \in Keys : okd[k] <= acc[k] /\ acc[k] <= 1 + amb[k]
Known == \A k \in got : ~In(aq, k) /\ k \notin aerr
Arrives == \A k \in Keys : (k \in enq) ~> (okd[k] > 0 \/ k \in aerr \/ k \in berr)
=============================================================================
