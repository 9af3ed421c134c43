------------------------------ MODULE Lifecycle ------------------------------
(* The life of an application process (ekosis/application_base.py) around its queues: work is accepted into memory and    *)
(* acknowledged, a worker takes one item at a time, handlers await or compute without awaiting; a termination signal or   *)
(* a failing task may come at any moment, clients may sit on open connections without reading. The end is orderly when    *)
(* what is outstanding is on the disk and the process ends by itself; the next incarnation starts from the disk.          *)
EXTENDS Naturals, FiniteSets
CONSTANTS Items, Lives, Signals,
          Raise,       \* TRUE: the signal raises in whatever code is running (which may swallow it)
          KeepTaken,   \* TRUE: an item that is being worked on when its task is cancelled goes back to the queue
          Linger       \* TRUE: the servers wait for clients that do not read before the process may go on
VARIABLES phase,       \* "boot", "up", "ending" (tasks cancelled), "down"
          mem, disk,   \* what is queued in memory and on the disk
          taken,       \* {} or {item being worked on}
          verdict,     \* items whose handler has finished
          acked, computing, cancel, left, lives, sigs, stuck
vars == <<phase, mem, disk, taken, verdict, acked, computing, cancel, left, lives, sigs, stuck>>
Init == phase = "boot" /\ mem = {} /\ disk = {} /\ taken = {} /\ verdict = {} /\ acked = {} /\ computing = FALSE /\ cancel = FALSE
        /\ left = Items /\ lives = 1 /\ sigs = 0 /\ stuck = FALSE
Boot == phase = "boot" /\ ~cancel /\ phase' = "up" /\ mem' = disk /\ disk' = {} /\ UNCHANGED <<taken, verdict, acked, computing, cancel, left, lives, sigs, stuck>>
Queue(i) == phase = "up" /\ ~computing /\ i \in left /\ left' = left \ {i} /\ mem' = mem \cup {i} /\ UNCHANGED <<phase, disk, taken, verdict, acked, computing, cancel, lives, sigs, stuck>>
Ack(i) == phase = "up" /\ ~computing /\ i \in (mem \cup taken \cup verdict) \ acked /\ acked' = acked \cup {i} /\ UNCHANGED <<phase, mem, disk, taken, verdict, computing, cancel, left, lives, sigs, stuck>>
Take(i) == phase = "up" /\ ~computing /\ ~cancel /\ taken = {} /\ i \in mem /\ taken' = {i} /\ mem' = mem \ {i} /\ UNCHANGED <<phase, disk, verdict, acked, computing, cancel, left, lives, sigs, stuck>>
Finish == phase = "up" /\ ~computing /\ taken # {} /\ verdict' = verdict \cup taken /\ taken' = {} /\ UNCHANGED <<phase, mem, disk, acked, computing, cancel, left, lives, sigs, stuck>>
Compute == phase = "up" /\ ~computing /\ ~cancel /\ computing' = TRUE /\ UNCHANGED <<phase, mem, disk, taken, verdict, acked, cancel, left, lives, sigs, stuck>>
Await == phase = "up" /\ computing /\ computing' = FALSE /\ UNCHANGED <<phase, mem, disk, taken, verdict, acked, cancel, left, lives, sigs, stuck>>
Clog == phase = "up" /\ ~stuck /\ stuck' = TRUE /\ UNCHANGED <<phase, mem, disk, taken, verdict, acked, computing, cancel, left, lives, sigs>>
Signal == /\ sigs < Signals /\ phase \in {"boot", "up", "ending"} /\ sigs' = sigs + 1
          /\ \/ cancel' = TRUE
             \/ Raise /\ computing /\ cancel' = cancel     \* swallowed by the code it hit
          /\ UNCHANGED <<phase, mem, disk, taken, verdict, acked, computing, left, lives, stuck>>
Fail == phase = "up" /\ ~computing /\ ~cancel /\ sigs < Signals /\ sigs' = sigs + 1 /\ cancel' = TRUE /\ UNCHANGED <<phase, mem, disk, taken, verdict, acked, computing, left, lives, stuck>>
Cancel == /\ cancel /\ ~computing /\ phase \in {"boot", "up"} /\ phase' = IF phase = "up" THEN "ending" ELSE "down"
          /\ mem' = (IF KeepTaken THEN mem \cup taken ELSE mem) /\ taken' = {} /\ cancel' = FALSE
          /\ UNCHANGED <<disk, verdict, acked, computing, left, lives, sigs, stuck>>
WriteOut == phase = "ending" /\ ~(Linger /\ stuck) /\ disk' = mem /\ mem' = {} /\ phase' = "down" /\ UNCHANGED <<taken, verdict, acked, computing, cancel, left, lives, sigs, stuck>>
Again == phase = "down" /\ lives < Lives /\ lives' = lives + 1 /\ phase' = "boot" /\ sigs' = 0 /\ stuck' = FALSE /\ cancel' = FALSE
         /\ UNCHANGED <<mem, disk, taken, verdict, acked, computing, left>>
Next == Boot \/ (\E i \in Items : Queue(i) \/ Ack(i) \/ Take(i)) \/ Finish \/ Compute \/ Await \/ Clog \/ Signal \/ Fail \/ Cancel \/ WriteOut \/ Again
Fair == WF_vars(Await) /\ WF_vars(Cancel) /\ WF_vars(WriteOut) /\ WF_vars(Boot)
Spec == Init /\ [][Next]_vars /\ Fair
Kept   == acked \subseteq (mem \cup disk \cup taken \cup verdict)
OnDisk == phase = "down" => mem = {} /\ taken = {}
NotTwice == verdict \cap (mem \cup disk \cup taken) = {}
Ends   == [](sigs > 0 /\ phase \in {"boot", "up", "ending"} => <>(phase = "down"))
=============================================================================
