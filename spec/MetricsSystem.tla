---------------------------- MODULE MetricsSystem -----------------------------
(* Services that come, go and count, a scraper that polls one after the other and pushes, a gateway    *)
(* that keeps the last push of the job. Odd: statistics a metric cannot be named after.                *)
(* Spoil = TRUE is the scraper that gives a service up at the first such statistic (as it was).         *)
EXTENDS Metrics
CONSTANTS Svcs, MaxCount, MaxCycle, Spoil
VARIABLES up, cnt, odd, ident, at, round, gw, seen, cyc
vars == <<up, cnt, odd, ident, at, round, gw, seen, cyc>>
Order == CHOOSE q \in [1..Cardinality(Svcs) -> Svcs] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
App(s) == s \o "-self"
Leaves(s) == <<[path |-> <<"uptime">>, safe |-> <<"uptime">>, clean |-> TRUE, val |-> "1", num |-> TRUE, neg |-> FALSE, clash |-> FALSE],
               [path |-> <<"odd name">>, safe |-> <<"odd_name">>, clean |-> FALSE, val |-> "2", num |-> odd[s], neg |-> FALSE, clash |-> FALSE],
               [path |-> <<"endpoint_data", "g", "e", "call_count">>, safe |-> <<>>, clean |-> TRUE, val |-> ToString(cnt[s]), num |-> TRUE, neg |-> FALSE, clash |-> FALSE],
               [path |-> <<"endpoint_data", "eco", "e", "call_count">>, safe |-> <<>>, clean |-> TRUE, val |-> "9", num |-> TRUE, neg |-> FALSE, clash |-> FALSE]>>
Init == /\ up = [s \in Svcs |-> FALSE] /\ cnt = [s \in Svcs |-> 0] /\ odd = [s \in Svcs |-> FALSE] /\ ident = [s \in Svcs |-> s]
        /\ at = 0 /\ round = {} /\ gw = {} /\ seen = <<>> /\ cyc = 0
Change == /\ \E s \in Svcs : \/ up' = [up EXCEPT ![s] = ~@] /\ UNCHANGED <<cnt, odd>>
                             \/ up[s] /\ cnt[s] < MaxCount /\ cnt' = [cnt EXCEPT ![s] = @ + 1] /\ UNCHANGED <<up, odd>>
                             \/ ~odd[s] /\ odd' = [odd EXCEPT ![s] = TRUE] /\ UNCHANGED <<up, cnt>>
          /\ UNCHANGED <<ident, at, round, gw, seen, cyc>>
Health(id, h) == [svc |-> id, m |-> "ekosis_service_health", route |-> <<>>, val |-> h]
Poll == /\ at \in 1..Cardinality(Svcs)
        /\ LET s == Order[at]
               broken == Spoil /\ odd[s]
               ms == {[svc |-> App(s), m |-> x.m, route |-> x.route, val |-> x.val] : x \in IF broken THEN Translate(SubSeq(Leaves(s), 1, 1)) ELSE Translate(Leaves(s))} IN
           IF up[s] THEN /\ round' = round \cup ms \cup {Health(App(s), "1")} \cup (IF broken THEN {Health(s, "0")} ELSE {})
                         /\ ident' = [ident EXCEPT ![s] = App(s)] /\ seen' = seen @@ (s :> [up |-> TRUE, cnt |-> cnt[s], odd |-> odd[s]])
                    ELSE /\ round' = round \cup {Health(ident[s], "0")} /\ seen' = seen @@ (s :> [up |-> FALSE, cnt |-> 0, odd |-> FALSE]) /\ UNCHANGED ident
        /\ at' = at + 1 /\ UNCHANGED <<up, cnt, odd, gw, cyc>>
Begin == at = 0 /\ cyc < MaxCycle /\ at' = 1 /\ round' = {} /\ seen' = <<>> /\ cyc' = cyc + 1 /\ UNCHANGED <<up, cnt, odd, ident, gw>>
Push == /\ at = Cardinality(Svcs) + 1 /\ at' = 0 /\ (gw' = round \/ gw' = gw)          \* the gateway may be away
        /\ UNCHANGED <<up, cnt, odd, ident, round, seen, cyc>>
Next == Change \/ Poll \/ Begin \/ Push
Spec == Init /\ [][Next]_vars /\ WF_vars(Poll) /\ WF_vars(Push) /\ WF_vars(Begin)
Of(set, s) == {x \in set : x.svc \in {s, App(s)}}
(* whatever is complete shows every service once, with exactly what it said *)
Exact == at = Cardinality(Svcs) + 1 => \A s \in Svcs :
   IF seen[s].up THEN /\ Cardinality({x \in Of(round, s) : x.m = "ekosis_service_health"}) = 1 /\ Health(App(s), "1") \in round
                      /\ \E x \in Of(round, s) : x.m = "ekosis_endpoint_call_count" /\ x.val = ToString(seen[s].cnt)
                      /\ Cardinality(Of(round, s)) = IF seen[s].odd THEN 4 ELSE 3
   ELSE Of(round, s) = {Health(ident[s], "0")}
NoEco == \A x \in gw : x.route = <<>> \/ x.route[1] # "eco"
Goes == (at = 1) ~> (at = 0)
=============================================================================
