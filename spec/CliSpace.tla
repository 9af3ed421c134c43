------------------------------- MODULE CliSpace -------------------------------
(* The command lines: every tool, transport, flag, pair of flags, key, and way of getting it wrong.    *)
EXTENDS Cli
VARIABLES c, op
D(x) == IF x = "" THEN "-" ELSE x
Label(x) == <<x.tool, x.st, x.sd, D(x.rk), IF Len(x.flags) > 0 THEN x.flags[1] ELSE "-", IF Len(x.flags) > 1 THEN x.flags[2] ELSE "-",
              D(x.sk), D(x.type), D(x.level), D(x.size)>>
Flags == DOMAIN EpOp \cup DOMAIN SndOp
QLines == [tool : {"bem", "bsm"}, st : {"tcp", "udp", "uds", "bad"}, sd : {"ok"}, rk : {"named", ""}, flags : {<<>>} \cup {<<f>> : f \in Flags},
           sk : {"", "bad", "key"}, type : {""}, level : {""}, size : {""}]
Pairs  == [tool : {"bem", "bsm"}, st : {"tcp"}, sd : {"ok"}, rk : {"named"}, flags : {<<f, g>> : f, g \in Flags} \ {<<f, f>> : f \in Flags},
           sk : {"key"}, type : {""}, level : {""}, size : {""}]
Addr   == [tool : {"bem", "bsm", "stat", "log"}, st : {"tcp", "udp", "uds"}, sd : {"none", "noport", "text", "empty"}, rk : {"named"}, flags : {<<>>},
           sk : {""}, type : {""}, level : {"info"}, size : {"3"}]
Stat   == [tool : {"stat"}, st : {"tcp", "udp", "uds", "bad"}, sd : {"ok"}, rk : {""}, flags : {<<>>}, sk : {""}, type : Types \cup {"", "wrong"}, level : {""}, size : {""}]
Log    == [tool : {"log"}, st : {"tcp", "udp", "uds", "bad"}, sd : {"ok"}, rk : {""}, flags : {<<>>}, sk : {""}, type : {""},
           level : Levels \cup {"", "wrong"}, size : {"", "0", "20", "100000", "bad"}]
Init == c \in QLines \cup Pairs \cup {x \in Addr : x.st # "uds" \/ x.sd \in {"none"}} \cup Stat \cup Log /\ op = Label(c)
Next == FALSE /\ UNCHANGED <<c, op>>
Spec == Init /\ [][Next]_<<c, op>>
Total == /\ Len(Requests(c)) <= 2
         /\ Refused(c) => Requests(c) = <<>>
         /\ Queue(c) /\ ~Refused(c) => Len(Requests(c)) = 1 /\ Requests(c)[1].arg = c.rk
         /\ Requests(c) = <<>> => Refused(c) \/ (c.tool = "log" /\ c.level = "" /\ c.size = "")
=============================================================================
