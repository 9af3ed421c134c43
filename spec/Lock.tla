-------------------------------- MODULE Lock ---------------------------------
(* Starts, ends and kills of processes of one application instance, at the granularity of the       *)
(* operations on the lock file. PidFile = TRUE: the protocol that trusts the process id in the       *)
(* file (what the repository had; TLC shows it breaks both properties).                              *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Procs, PidFile, Recycle
NoFile == 100
Empty == 101
VARIABLES pc,        \* per process: off, open, check, write, run, refused
          file,      \* content: NoFile, Empty or the process id written last
          owner,     \* operating system lock on the file: a process or 0
          pid,       \* process id of each process (processes reuse ids of ended ones when Recycle)
          over       \* per process being started: somebody else was alive at some time since
vars == <<pc, file, owner, pid, over>>
Alive == {p \in Procs : pc[p] \notin {"off", "refused"}}
Ids == 1..Cardinality(Procs)
Init == pc = [p \in Procs |-> "off"] /\ file \in {NoFile, Empty} \cup Ids /\ owner = 0 /\ pid = [p \in Procs |-> 0] /\ over = [p \in Procs |-> FALSE]
Begin(p) == /\ pc[p] = "off"
            /\ \E i \in Ids : (\A q \in Alive : pid[q] # i) /\ (Recycle \/ file # i) /\ pid' = [pid EXCEPT ![p] = i]
            /\ pc' = [pc EXCEPT ![p] = "open"]
            /\ over' = [q \in Procs |-> IF q = p THEN Alive # {} ELSE over[q] \/ pc[q] \in {"open", "check", "write"}]
            /\ UNCHANGED <<file, owner>>
(* operating system lock *)
OpenL(p)  == ~PidFile /\ pc[p] = "open" /\ file' = (IF file = NoFile THEN Empty ELSE file) /\ pc' = [pc EXCEPT ![p] = "check"] /\ UNCHANGED <<owner, pid, over>>
LockL(p)  == ~PidFile /\ pc[p] = "check" /\ UNCHANGED <<file, pid, over>>
             /\ IF owner = 0 THEN owner' = p /\ pc' = [pc EXCEPT ![p] = "write"]
                ELSE owner' = owner /\ pc' = [pc EXCEPT ![p] = "refused"]
WriteL(p) == ~PidFile /\ pc[p] = "write" /\ \E v \in {Empty, pid[p]} :
               file' = v /\ pc' = [pc EXCEPT ![p] = IF v = Empty THEN "write" ELSE "run"] /\ UNCHANGED <<owner, pid, over>>
(* process id in the file *)
Live(v) == v \in Ids /\ \E q \in Alive : pid[q] = v
OpenP(p)  == PidFile /\ pc[p] = "open" /\ UNCHANGED <<owner, pid, over>>
             /\ IF Live(file) THEN pc' = [pc EXCEPT ![p] = "refused"] /\ file' = file
                ELSE pc' = [pc EXCEPT ![p] = "check"] /\ file' = NoFile
CreateP(p) == PidFile /\ pc[p] = "check" /\ file' = Empty /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<owner, pid, over>>
WriteP(p) == PidFile /\ pc[p] = "write" /\ file' = pid[p] /\ pc' = [pc EXCEPT ![p] = "run"] /\ UNCHANGED <<owner, pid, over>>
(* the end of a process, at any moment and in any way *)
End(p) == /\ pc[p] # "off" /\ pc' = [pc EXCEPT ![p] = "off"] /\ owner' = (IF owner = p THEN 0 ELSE owner)
          /\ pid' = [pid EXCEPT ![p] = 0] /\ over' = [over EXCEPT ![p] = FALSE] /\ UNCHANGED file
Next == \E p \in Procs : Begin(p) \/ OpenL(p) \/ LockL(p) \/ WriteL(p) \/ OpenP(p) \/ CreateP(p) \/ WriteP(p) \/ End(p)
Fair == \A p \in Procs : WF_vars(OpenL(p) \/ LockL(p)) /\ SF_vars(WriteL(p) /\ pc'[p] = "run")
Spec == Init /\ [][Next]_vars /\ Fair
OneRuns == Cardinality({p \in Procs : pc[p] = "run"}) <= 1
(* refused only when somebody else was there *)
NotStuck == \A p \in Procs : pc[p] = "refused" => over[p]
Decides == \A p \in Procs : (pc[p] = "open") ~> (pc[p] \in {"run", "refused", "off"})
=============================================================================
