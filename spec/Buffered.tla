------------------------------ MODULE Buffered ------------------------------
(* Fine-grained model of one buffered endpoint or sender: acceptance, the worker's start and finish *)
(* steps, pausing, error-queue management, termination and restart, interleaved arbitrarily.        *)
EXTENDS BufferedOps, TLC
CONSTANTS Keys, MaxR, Kind, MaxTerm,
          Mis    \* what lives after the first do not know how to read
VARIABLES s, up, terms,
          acc,   \* ghost: keys accepted so far
          done,  \* ghost: keys handled successfully
          gone,  \* ghost: keys removed by the operator
          tries, \* ghost: attempts since acceptance / reprocessing
          hist   \* ghost: keys in order of first handling
vars == <<s, up, terms, acc, done, gone, tries, hist>>
C == [kind |-> Kind, maxr |-> MaxR, slow |-> FALSE, mis |-> IF terms > 0 THEN Mis ELSE {}]
Outcomes == IF Kind = "ep" THEN {"ok", "fail", "exc"} ELSE {"ok", "busy", "other"}

Init == s = Fresh /\ up = TRUE /\ terms = 0 /\ acc = <<>> /\ done = {} /\ gone = {} /\ tries = [k \in Keys |-> 0] /\ hist = <<>>
Rng(q) == {q[i] : i \in DOMAIN q}

Accept(k) == /\ up /\ k \notin Rng(acc) /\ k \notin C.mis
             /\ LET r == Apply(C, s, [n |-> "accept", k |-> k, m |-> k]) IN
                /\ s' = r.s
                /\ acc' = IF r.st = 0 THEN Append(acc, k) ELSE acc
             /\ UNCHANGED <<up, terms, done, gone, tries, hist>>
StartWork == /\ up /\ CanStart(s) /\ Head(s.pend).k \notin C.mis /\ s' = Start(s)
             /\ LET k == s'.inf[1].k IN
                /\ tries' = [tries EXCEPT ![k] = @ + 1]
                /\ hist' = IF k \in Rng(hist) THEN hist ELSE Append(hist, k)
             /\ UNCHANGED <<up, terms, acc, done, gone>>
Misfit == /\ up /\ CanStart(s) /\ Head(s.pend).k \in C.mis /\ s' = ToErr(Start(s), Head(s.pend))
          /\ LET k == Head(s.pend).k IN hist' = IF k \in Rng(hist) THEN hist ELSE Append(hist, k)
          /\ UNCHANGED <<up, terms, acc, done, gone, tries>>
FinishWork(o) == /\ up /\ s.inf # <<>> /\ s' = Finish(C, s, o)
                 /\ done' = IF o = "ok" THEN done \cup {s.inf[1].k} ELSE done
                 /\ UNCHANGED <<up, terms, acc, gone, tries, hist>>
Mgmt(nm, k) == /\ up
               /\ LET r == Apply(C, s, [n |-> nm, k |-> k]) IN
                  /\ s' = r.s
                  /\ gone' = CASE nm = "pop" -> gone \cup Rng(r.d)
                               [] nm = "clear" -> gone \cup KeysOf(s.err)
                               [] OTHER -> gone
                  /\ tries' = CASE nm = "repone" -> [x \in Keys |-> IF x \in Rng(r.d) THEN 0 ELSE tries[x]]
                                [] nm = "repall" -> [x \in Keys |-> IF x \in KeysOf(s.err) THEN 0 ELSE tries[x]]
                                [] OTHER -> tries
               /\ UNCHANGED <<up, terms, acc, done, hist>>
TermWork == /\ up /\ terms < MaxTerm /\ up' = FALSE /\ terms' = terms + 1 /\ s' = Term(s)
            /\ tries' = IF s.inf = <<>> THEN tries ELSE [tries EXCEPT ![s.inf[1].k] = @ - 1]  \* interrupted, not used up
            /\ UNCHANGED <<acc, done, gone, hist>>
Boot == ~up /\ up' = TRUE /\ UNCHANGED <<s, terms, acc, done, gone, tries, hist>>

Next == \/ \E k \in Keys : Accept(k)
        \/ StartWork \/ Misfit \/ \E o \in Outcomes : FinishWork(o)
        \/ \E nm \in {"rpause", "runpause", "ppause", "punpause"} : Mgmt(nm, 0)
        \/ \E nm \in {"repall", "clear"} : Mgmt(nm, 0)
        \/ \E nm \in {"pop", "repone"}, k \in Keys : Mgmt(nm, k)
        \/ TermWork \/ Boot
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(StartWork) /\ WF_vars(Misfit) /\ WF_vars(FinishWork("ok")) /\ WF_vars(Boot)

Where(k) == (IF k \in KeysOf(s.pend) THEN 1 ELSE 0) + (IF k \in KeysOf(s.err) THEN 1 ELSE 0)
          + (IF k \in KeysOf(s.inf) THEN 1 ELSE 0) + (IF k \in done THEN 1 ELSE 0) + (IF k \in gone THEN 1 ELSE 0)
Accounted == \A k \in Keys : Where(k) = IF k \in Rng(acc) THEN 1 ELSE 0           \* C03, C08
Serial    == Len(s.inf) <= 1                                                      \* C05, C08
InBudget  == \A k \in Keys : tries[k] <= Budget(C)                                \* C04, C08
ErrAfterBudget == [][\A k \in Keys : (k \in KeysOf(s.inf) /\ k \in KeysOf(s'.pend) /\ up /\ up') => tries[k] < Budget(C)]_vars
UsedIsN   == \A i \in DOMAIN s.pend : s.pend[i].n = tries[s.pend[i].k]            \* used retries are kept
MetaKept  == \A q \in {s.pend, s.err, s.inf} : \A i \in DOMAIN q : q[i].m = q[i].k
InOrder   == \A i, j \in DOMAIN hist : i < j =>                                    \* first handling in acceptance order
               \A a, b \in DOMAIN acc : (acc[a] = hist[i] /\ acc[b] = hist[j]) => a < b
PauseHolds == [][(s.pp /\ s'.inf # <<>>) => s'.inf = s.inf]_vars                  \* C06, C09
NoStall   == \A k \in Keys : [](k \in KeysOf(s.pend) => <>(k \notin KeysOf(s.pend) \/ s.pp))   \* C05
=============================================================================
