----------------------------- MODULE ClientOps ------------------------------
(* What one attempt of a client call can end with, and what the call makes of it.                   *)
(* kinds: "tt" transient stream, "pp" persisted stream, "ud" datagram                               *)
EXTENDS Naturals, Integers, Sequences
Statuses == {100, 200, 300, 400, 500, 600, 999}
StatusException(s) ==
  CASE s = 100 -> "ProtocolParsingException"    [] s = 200 -> "ClientDeniedException"
    [] s = 300 -> "PydanticValidationException" [] s = 400 -> "RouteKeyUnknownException"
    [] s = 500 -> "ServerBusyException"         [] s = 600 -> "ProcessingException"
    [] s = 999 -> "UnhandledException"          [] OTHER   -> "UnknownStatusCodeException"

(* fate of an attempt: "ok" (status 0), "status", "timeout", "closed" (end of stream before a full  *)
(* answer), "reset" (connection reset), "refused" (nobody listens)                                  *)
Retryable(kind, fate) ==
  \/ fate \in {"timeout", "reset"}
  \/ fate = "closed" /\ kind = "pp"
Final(kind, fate) == ~Retryable(kind, fate)
(* outcome of a call whose attempts had these fates (the last one decides) *)
Outcome(kind, fate, status) ==
  CASE fate = "ok"     -> "ok"
    [] fate = "status" -> StatusException(status)
    [] Retryable(kind, fate) -> "CommunicationsMaxRetriesReached"
    [] OTHER -> "CommunicationsNonRetryable"
=============================================================================
