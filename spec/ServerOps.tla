----------------------------- MODULE ServerOps ------------------------------
(* What a server makes of one request: the outcome by the kind of request, and the middleware chain. *)
EXTENDS Naturals, Integers, Sequences
OkKinds   == {"ok", "big", "gate", "empty", "none", "buf", "strict", "send"}
Allowed(k) ==
  CASE k \in OkKinds                 -> {0}
    [] k \in {"badjson", "badutf8"}  -> {100}
    [] k = "deep"                    -> {100, 999}
    [] k = "nonobj"                  -> {100, 300, 999}
    [] k \in {"missing", "badspan", "badroute", "baddto"} -> {300}
    [] k = "nondict"                 -> {300, 999}
    [] k = "surr"                    -> {0, 300, 999}
    [] k = "surrd"                   -> {0, 300, 999}
    [] k = "unknown"                 -> {400}
    [] k = "bufp"                    -> {500}
    [] k \in {"proc", "gproc"}       -> {600}
    [] k \in {"exc", "unser", "gexc"} -> {999}
    [] k \in {"excval", "gval"}      -> {300, 999}
    [] OTHER                         -> {0, 300, 400, 600, 999}      (* decided by the middleware plan *)
(* kinds whose endpoint runs, exactly once *)
Runs == {"ok", "big", "gate", "none", "strict", "send", "proc", "exc", "excval", "unser", "gexc", "gproc", "gval"}
NeverRuns == {"badjson", "badutf8", "deep", "nonobj", "missing", "badspan", "badroute", "baddto", "nondict", "unknown", "bufp", "enq"}
Waits == {"gate", "gexc", "gproc", "gval"}

(* ---- middleware: plan = <<actions of before_routing, actions of after_routing>> per middleware ---- *)
(* returns the sequence of calls <<hook, middleware, chain seen>>, the final status and response chain *)
RECURSIVE Bef(_, _, _, _)
Bef(plan, i, ch, calls) ==       (* -> [calls, ch, st, route]; st -1 = go on *)
  IF i > Len(plan[1]) THEN [calls |-> calls, ch |-> ch, st |-> -1]
  ELSE LET a == plan[1][i]  c2 == Append(calls, <<"b", i, ch, <<>> >>) IN
       IF a = "raise" THEN [calls |-> c2, ch |-> ch, st |-> 999]
       ELSE IF a = "proc" THEN [calls |-> c2, ch |-> ch, st |-> 600]
       ELSE Bef(plan, i + 1, IF a \in {"mut", "rep", "route", "bad", "nowhere"} THEN Append(ch, i) ELSE ch, c2)
RECURSIVE Aft(_, _, _, _, _)
Aft(plan, i, rs, calls, pc) ==
  IF i > Len(plan[2]) THEN [calls |-> calls, rs |-> rs, st |-> 0]
  ELSE LET a == plan[2][i]  c2 == Append(calls, <<"a", i, rs, pc>>) IN
       IF a = "raise" THEN [calls |-> c2, rs |-> <<>>, st |-> 999]
       ELSE IF a = "proc" THEN [calls |-> c2, rs |-> <<>>, st |-> 600]
       ELSE IF a = "nil" THEN Aft(plan, i + 1, <<>>, c2, pc)         (* nothing is what the client gets *)
       ELSE Aft(plan, i + 1, IF a \in {"mut", "rep"} THEN Append(rs, i) ELSE rs, c2, pc)
Has(plan, x) == \E i \in DOMAIN plan[1] : plan[1][i] = x
(* the last replacement of the route wins; "bad" spoils the data for good *)
Rep(plan) == {i \in DOMAIN plan[1] : plan[1][i] \in {"route", "nowhere"}}
LastRep(plan) == IF Rep(plan) = {} THEN "" ELSE plan[1][CHOOSE i \in Rep(plan) : \A j \in Rep(plan) : j <= i]
Handle(route, plan) ==
  LET b == Bef(plan, 1, <<>>, <<>>)
      rt == IF LastRep(plan) = "route" THEN "ok2" ELSE IF LastRep(plan) = "nowhere" THEN "nowhere" ELSE route IN
  IF b.st # -1 THEN [calls |-> b.calls, st |-> b.st, rs |-> <<>>]
  ELSE IF rt = "nowhere" THEN [calls |-> b.calls, st |-> 400, rs |-> <<>>]
  ELSE IF Has(plan, "bad") THEN [calls |-> b.calls, st |-> 300, rs |-> <<>>]
  ELSE LET c2 == Append(b.calls, <<"x", IF rt = "ok2" THEN 2 ELSE 0, b.ch, <<>> >>) IN
       IF rt = "proc" THEN [calls |-> c2, st |-> 600, rs |-> <<>>]
       ELSE IF rt = "exc" THEN [calls |-> c2, st |-> 999, rs |-> <<>>]
       ELSE LET a == Aft(plan, 1, <<>>, c2, b.ch) IN [calls |-> a.calls, st |-> a.st, rs |-> a.rs]
=============================================================================
