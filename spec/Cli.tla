--------------------------------- MODULE Cli ----------------------------------
(* What a command line of the tools ekosis.cli.{bem,bsm,stat,log} asks an application to do.         *)
(* c: [tool, st, sd |-> "ok" or what is wrong with the address, rk |-> queue route key ("" none),    *)
(*     flags |-> sequence of operation flags, sk |-> span key text ("" none, "bad" unreadable),      *)
(*     type |-> statistics type, level |-> log level, size |-> buffer size (texts, "" none)]         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Shared == [e10 |-> "errors.get_first_10", rp1 |-> "errors.reprocess.one", rpa |-> "errors.reprocess.all",
           ins |-> "errors.inspect_request", pop |-> "errors.pop_request", clr |-> "errors.clear"]
EpOp  == [pr |-> "receiving.pause", ur |-> "receiving.unpause", pp |-> "processing.pause", up |-> "processing.unpause",
          pa |-> "all.pause", ua |-> "all.unpause"] @@ Shared
SndOp == [ps |-> "send_process.pause", us |-> "send_process.unpause"] @@ Shared
Item  == {"rp1", "ins", "pop"}
Levels == {"debug", "info", "warn", "error", "critical"}
Types  == {"current", "gathered", "full"}
Queue(c)  == c.tool \in {"bem", "bsm"}
Prefix(c) == IF c.tool = "bem" THEN "eco.buffered_handler." ELSE "eco.buffered_sender."
OpsOf(c)  == IF c.tool = "bem" THEN EpOp ELSE SndOp
Req(route, arg, sk) == [route |-> route, arg |-> arg, sk |-> sk]

(* a command line that means nothing is refused: nothing is sent, and the tool does not end with 0   *)
Refused(c) ==
  \/ c.st \notin {"tcp", "udp", "uds"} \/ c.sd # "ok"
  \/ Queue(c) /\ (c.rk = "" \/ Len(c.flags) > 1 \/ \E i \in DOMAIN c.flags : c.flags[i] \notin DOMAIN OpsOf(c))
  \/ Queue(c) /\ Len(c.flags) = 1 /\ c.flags[1] \in Item /\ c.sk \in {"", "bad"}
  \/ c.tool = "stat" /\ c.type \notin Types \cup {""}
  \/ c.tool = "log" /\ (c.level \notin Levels \cup {""} \/ c.size = "bad")

Requests(c) ==
  IF Refused(c) THEN <<>>
  ELSE IF Queue(c) THEN
    IF c.flags = <<>> THEN <<Req(Prefix(c) \o "data", c.rk, "")>>
    ELSE <<Req(Prefix(c) \o OpsOf(c)[c.flags[1]], c.rk, IF c.flags[1] \in Item THEN c.sk ELSE "")>>
  ELSE IF c.tool = "stat" THEN <<Req("eco.statistics.get", IF c.type = "" THEN "current" ELSE c.type, "")>>
  ELSE (IF c.level = "" THEN <<>> ELSE <<Req("eco.log.level", c.level, "")>>)
       \o (IF c.size = "" THEN <<>> ELSE <<Req("eco.log.buffer", c.size, "")>>)
=============================================================================
