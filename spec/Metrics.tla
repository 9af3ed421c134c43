------------------------------- MODULE Metrics --------------------------------
(* The Prometheus bridge: which services it finds, and what it publishes about each of them.          *)
(* v (an environment variable): [pre, proto, segs |-> name segments as lower case, inst, host, form]   *)
(* leaf (of the statistics of a service): [path, safe |-> path with nothing but [A-Za-z0-9_] in its     *)
(*   segments, clean |-> whether that changed only - , val |-> text, num |-> is a number, neg,            *)
(*   clash |-> another leaf reads the same when cleaned, then one of them may win]                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Last(q) == q[Len(q)]
Local == {"127.0.0.1", "localhost", "0.0.0.0", "HOSTNAME", "OWNIP"}
Found(v) == v.pre = "ECOENV_" /\ (\/ v.proto = "UDS" /\ v.form \in {"ok", "DEFAULT"}
                                  \/ v.proto \in {"TCP", "UDP"} /\ v.form = "ok" /\ v.host \in Local)
Name(v) == Join(v.segs, "_")
(* a socket given as DEFAULT lies in that directory under the name of the application and instance *)
Socket(v) == IF v.form = "DEFAULT" THEN Name(v) \o "_" \o v.inst \o ".uds.sock" ELSE "given"

Known == {"application", "endpoint_data", "buffered_endpoint_sizes", "buffered_sender_sizes", "timestamp", "uptime", "gather_period"}
Queues == {"buffered_endpoint_sizes", "buffered_sender_sizes"}
QName == [buffered_endpoint_sizes |-> "ekosis_buffered_endpoint_queue_", buffered_sender_sizes |-> "ekosis_buffered_sender_queue_"]
Route(p) == SubSeq(p, 2, Len(p) - 1)
EpName == [call_count |-> "ekosis_endpoint_call_count", p95 |-> "ekosis_endpoint_p95_seconds", p99 |-> "ekosis_endpoint_p99_seconds"]
(* the metric a leaf becomes: [m, route |-> <<>> or the segments of the route key, val] *)
Metric(x) == LET p == x.path IN
  IF ~x.num THEN {}
  ELSE IF p = <<"uptime">> THEN {[m |-> "ekosis_uptime_seconds", route |-> <<>>, val |-> x.val, opt |-> FALSE]}
  ELSE IF p = <<"gather_period">> THEN {[m |-> "ekosis_gather_period_seconds", route |-> <<>>, val |-> x.val, opt |-> FALSE]}
  ELSE IF p[1] = "endpoint_data" THEN
    IF Len(p) < 3 \/ Last(p) \notin DOMAIN EpName \/ p[2] = "eco" \/ (x.neg /\ Last(p) # "call_count") THEN {}
    ELSE {[m |-> EpName[Last(p)], route |-> Route(p), val |-> x.val, opt |-> FALSE]}
  ELSE IF p[1] \in Queues THEN
    IF Len(p) < 3 \/ Last(p) \notin {"pending", "error"} \/ p[2] = "eco" THEN {}
    ELSE {[m |-> QName[p[1]] \o Last(p), route |-> Route(p), val |-> x.val, opt |-> FALSE]}
  ELSE IF p[1] \in Known THEN {}
  ELSE {[m |-> IF x.clean THEN "ekosis_custom_" \o Join(x.safe, "_") ELSE "*", route |-> <<>>, val |-> x.val, opt |-> x.clash]}
Translate(leaves) == UNION {Metric(leaves[i]) : i \in DOMAIN leaves}
(* what of the labels names the route *)
RouteIs(route, group, ep) ==
  IF route = <<>> THEN group = "" /\ ep = ""
  ELSE IF Len(route) = 1 THEN ep = route[1] /\ group \in {"", route[1]}
  ELSE \E j \in 1..Len(route) - 1 : group = Join(SubSeq(route, 1, j), ".") /\ ep = Join(SubSeq(route, j + 1, Len(route)), ".")
=============================================================================
