----------------------------- MODULE DeclareOps -------------------------------
(* What a declaration of an endpoint or a sender means.                                               *)
(* A data type is its fields; a field either has a default or must be given.                           *)
EXTENDS Integers, FiniteSets
Fields(ty) == CASE ty = "A" -> {"id", "v"} [] ty = "B" -> {"id", "n"} [] ty = "E" -> {} [] ty = "P" -> {"id", "a"} [] ty = "Q" -> {"id", "a", "b"}
Default(f) == CASE f = "n" -> 7 [] f = "b" -> 3 [] OTHER -> 0
Must(ty) == Fields(ty) \ {"n", "b"}
(* data d (a function from field names) read as a ty *)
Fits(ty, d) == Must(ty) \subseteq DOMAIN d
Cast(ty, d) == [f \in Fields(ty) |-> IF f \in DOMAIN d THEN d[f] ELSE Default(f)]
Offered == {"dto", "span_key"}
(* an endpoint function is given what it declares of what is offered, and nothing it does not declare  *)
Given(sig) == sig.ps \cap Offered
Callable(sig) == sig.need \subseteq Offered
(* a route key belongs to the function that was declared for it first *)
Taken(table, r) == r \in DOMAIN table
Declare(table, r, d) == IF Taken(table, r) THEN table ELSE [x \in DOMAIN table \cup {r} |-> IF x = r THEN d ELSE table[x]]
(* what comes of a request for route r with data d: *)
Outcome(table, r, d) == IF ~Taken(table, r) THEN "RouteKeyUnknownException"
                        ELSE IF ~Fits(table[r].ty, d) THEN "PydanticValidationException"
                        ELSE IF table[r].kind = "ep" /\ ~Callable(table[r]) THEN "UnhandledException" ELSE "ok"
Runs(table, r, d) == IF Taken(table, r) /\ Fits(table[r].ty, d) /\ Callable(table[r]) THEN 1 ELSE 0
=============================================================================
