----------------------------- MODULE MetricsSpace -----------------------------
(* Every way a variable can (or cannot) name a service of this machine.                               *)
EXTENDS Metrics
VARIABLES v, op
Segs == {<<"router">>, <<"time", "reporter">>, <<"magic", "8", "ball">>}
Insts == {"0", "7", "12", "cats"}
Net  == [pre : {"ECOENV_"}, proto : {"TCP", "UDP"}, segs : Segs, inst : Insts, host : Local \cup {"192.0.2.7", "example.invalid"}, form : {"ok", "noport", "badport", "empty"}]
Uds  == [pre : {"ECOENV_"}, proto : {"UDS"}, segs : Segs, inst : Insts, host : {"-"}, form : {"ok", "DEFAULT", "empty"}]
Odd  == [pre : {"MYECOENV_", "ecoenv_", "ECOENV_X", "ECOENV_EXTRA_"}, proto : {"TCP", "UDP"}, segs : {<<"router">>}, inst : {"0"}, host : {"127.0.0.1"}, form : {"ok"}]
Init == v \in Net \cup Uds \cup Odd /\ op = <<v.pre, v.proto, Join(v.segs, "."), v.inst, v.host, v.form>>
Next == FALSE /\ UNCHANGED <<v, op>>
Spec == Init /\ [][Next]_<<v, op>>
OnlyLocal == Found(v) => v.host \in Local \cup {"-"} /\ v.form # "empty"
NotEmpty  == Name(v) # ""
=============================================================================
