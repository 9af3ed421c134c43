------------------------------ MODULE Background ------------------------------
(* Work that an application gives to its event loop in setup_tasks: every task has started when the first   *)
(* request is served, goes on next to the requests, may come to its own end without a consequence, ends the *)
(* application when it fails, and is cancelled when the application ends - before the queues are written     *)
(* out, so that what its clean-up queues is there in the next life.                                          *)
EXTENDS Naturals, FiniteSets
CONSTANTS Tasks, Lives,
          Guarded,     \* FALSE: requests are served whether or not the tasks have started
          Patient,     \* FALSE: the queues are written out without regard to what the tasks still do
          Isolated     \* FALSE: a task that is over takes the application with it
VARIABLES app, t, clean, served, mem, disk, due, lives, op
vars == <<app, t, clean, served, mem, disk, due, lives, op>>
Cleans == {"quick", "queue", "raise"}
Ways == {"TERM", "INT", "HUP"}
Nop == <<"in", 0, "x">>
Init == app = "down" /\ t = [j \in Tasks |-> "none"] /\ clean = [j \in Tasks |-> "quick"] /\ served = 0 /\ mem = 0 /\ disk = 0 /\ due = 0 /\ lives = 0 /\ op = Nop
Boot(c) == /\ app = "down" /\ lives < Lives /\ lives' = lives + 1 /\ app' = "up" /\ t' = [j \in Tasks |-> "new"] /\ clean' = c
           /\ mem' = disk /\ disk' = 0 /\ served' = 0 /\ op' = <<"boot", Cardinality({j \in Tasks : c[j] = "queue"}), "x">> /\ UNCHANGED due
Start(j) == app = "up" /\ t[j] = "new" /\ t' = [t EXCEPT ![j] = "run"] /\ op' = Nop /\ UNCHANGED <<app, clean, served, mem, disk, due, lives>>
Look == app = "up" /\ (Guarded => \A j \in Tasks : t[j] # "new") /\ served' = 1 /\ op' = <<"look", 0, "x">> /\ UNCHANGED <<app, t, clean, mem, disk, due, lives>>
Beat(j) == app = "up" /\ served = 1 /\ t[j] = "run" /\ op' = <<"beat", j, "x">> /\ UNCHANGED <<app, t, clean, served, mem, disk, due, lives>>
Finish(j) == app = "up" /\ served = 1 /\ t[j] = "run" /\ t' = [t EXCEPT ![j] = "over"] /\ app' = (IF Isolated THEN "up" ELSE "ending") /\ op' = <<"finish", j, "x">> /\ UNCHANGED <<clean, served, mem, disk, due, lives>>
Fail(j) == app = "up" /\ served = 1 /\ t[j] = "run" /\ t' = [t EXCEPT ![j] = "failed"] /\ app' = "ending" /\ op' = <<"fail", j, "x">> /\ UNCHANGED <<clean, served, mem, disk, due, lives>>
Signal(w) == app = "up" /\ (\A j \in Tasks : t[j] # "new") /\ app' = "ending" /\ op' = <<"end", 0, w>> /\ UNCHANGED <<t, clean, served, mem, disk, due, lives>>
Cancel(j) == /\ app \in {"ending", "down"} /\ t[j] = "run" /\ t' = [t EXCEPT ![j] = "cleaned"]
             /\ IF clean[j] = "queue" THEN mem' = mem + 1 /\ due' = due + 1 ELSE UNCHANGED <<mem, due>>
             /\ op' = Nop /\ UNCHANGED <<app, clean, served, disk, lives>>
Down == app = "ending" /\ (Patient => \A j \in Tasks : t[j] # "run") /\ app' = "down" /\ disk' = mem /\ mem' = 0 /\ op' = Nop /\ UNCHANGED <<t, clean, served, due, lives>>
Next == (\E c \in [Tasks -> Cleans] : Boot(c)) \/ Look \/ Down \/ (\E w \in Ways : Signal(w)) \/ \E j \in Tasks : Start(j) \/ Beat(j) \/ Finish(j) \/ Fail(j) \/ Cancel(j)
Fair == WF_vars(Down) /\ \A j \in Tasks : WF_vars(Start(j)) /\ WF_vars(Cancel(j))
Spec == Init /\ [][Next]_vars /\ Fair
Ready   == served = 1 => \A j \in Tasks : t[j] # "new"
Cleaned == app = "down" => \A j \in Tasks : t[j] # "run"
Kept    == app = "down" => disk = due
OnlyThen == (\E j \in Tasks : t[j] = "cleaned") => app # "up"
Alone   == app = "up" \/ lives = 0 \/ (\E j \in Tasks : t[j] = "failed") \/ op[1] # "finish"
Ends    == app = "ending" ~> app = "down"
=============================================================================
