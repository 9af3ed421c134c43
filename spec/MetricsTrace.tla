----------------------------- MODULE MetricsTrace -----------------------------
(* What a push gateway received from the real scraper, against what the services of the machine said.  *)
(* reset: [vars |-> <<variable + addr>>, gp, job]; cycle: [st |-> addr -> [kind, name, inst, leaves, polls],   *)
(*   dt8 |-> eighths of a second since the last push was answered, slack8, path, ms |-> <<[m, svc, inst, group, ep, val]>>] *)
EXTENDS Metrics, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, R, id, bad
tv == <<l, R, id, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Set(q) == {q[j] : j \in DOMAIN q}
Targets == {v \in Set(R.vars) : Found(v)}
St(e, a) == e.st[a]
(* who a service is: what it said last, else what the variable says *)
Known1(a) == a \in DOMAIN id
IdOf(v) == IF Known1(v.addr) THEN {id[v.addr]} ELSE {<<Name(v), v.inst>>, <<Name(v), v.uinst>>}
Told(x) == x.kind = "up" /\ x.name # ""
Now(e, v) == IF Told(St(e, v.addr)) THEN {<<St(e, v.addr).name, St(e, v.addr).inst>>} ELSE IdOf(v)
Answers(x) == x.kind \in {"up", "empty"}
Mine(e, v) == {y \in Set(e.ms) : <<y.svc, y.inst>> \in Now(e, v) \cup IdOf(v) \cup {<<Name(v), v.uinst>>}}
HealthOf(ys) == {y \in ys : y.m = "ekosis_service_health"}
Custom(y) == Len(y.m) > 14 /\ SubSeq(y.m, 1, 14) = "ekosis_custom_"
Matches(w, y) == (IF w.m = "*" THEN Custom(y) ELSE w.m = y.m) /\ RouteIs(w.route, y.group, y.ep) /\ w.val = y.val
Cycle(e) ==
  UNION {LET x == St(e, v.addr)
             ys == Mine(e, v)
             hs == HealthOf(ys)
             want == IF x.kind = "up" THEN Translate(x.leaves) ELSE {}
             rest == {y \in ys \ hs : TRUE} IN
     (IF Cardinality(hs) = 1 /\ \A y \in hs : <<y.svc, y.inst>> \in Now(e, v) THEN {} ELSE {B(e, "health.one", Now(e, v), hs)})
     \cup (IF x.kind = "odd" \/ \A y \in hs : y.val = (IF Answers(x) THEN "1.0" ELSE "0.0") THEN {} ELSE {B(e, "health.value", x.kind, hs)})
     \cup UNION {IF \E y \in rest : Matches(w, y) THEN {} ELSE {B(e, "metric.missing", <<v.addr, w>>, {y \in rest : y.m = w.m})} : w \in {w \in want : ~w.opt}}
     \cup UNION {IF \E w \in want : Matches(w, y) THEN {} ELSE {B(e, "metric.extra", v.addr, y)} : y \in rest}
     \cup (IF x.polls >= 1 \/ x.kind = "refuse" THEN {} ELSE {B(e, "polled", "asked for its statistics", v.addr)})
     \cup (IF Answers(x) /\ x.polls > Cardinality({u \in Targets : u.addr = v.addr}) THEN {B(e, "polled.once", 1, <<v.addr, x.polls>>)} ELSE {})
     : v \in Targets}
  \cup {B(e, "service.unknown", {Name(v) : v \in Targets}, y) : y \in Set(e.ms) \ UNION {Mine(e, v) : v \in Targets}}
  \cup {B(e, "polled.foreign", "never", v.addr) : v \in {v \in Set(R.vars) \ Targets : v.addr \in DOMAIN e.st /\ St(e, v.addr).polls > 0
                                                       /\ \A u \in Targets : u.addr # v.addr}}
  \cup (IF e.why = "" THEN {} ELSE {B(e, "push.valid", "a payload a push gateway accepts", e.why)})
  \cup (IF e.path = R.job THEN {} ELSE {B(e, "push.job", R.job, e.path)})
  \cup (IF e.dt8 >= 8 * R.gp - 1 /\ e.dt8 <= 8 * R.gp + e.slack8 THEN {} ELSE {B(e, "interval", R.gp * 8, e.dt8)})
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> R' = e /\ id' = <<>> /\ bad' = bad
       [] e.ev = "cycle" -> /\ bad' = bad \cup Cycle(e) /\ R' = R
                            /\ id' = [a \in {v.addr : v \in {v \in Targets : Told(St(e, v.addr))}} |-> <<St(e, a).name, St(e, a).inst>>] @@ id
       [] e.ev = "held"  -> bad' = bad \cup (IF e.ok = 1 THEN {} ELSE {B(e, "gateway.blocks", "the scraper goes on answering", "no answer")}) /\ UNCHANGED <<R, id>>
       [] e.ev = "dead"  -> bad' = bad \cup {B(e, "app.dead", "running", e.why)} /\ UNCHANGED <<R, id>>
TInit == l = 1 /\ R = <<>> /\ id = <<>> /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
