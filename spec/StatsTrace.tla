----------------------------- MODULE StatsTrace -----------------------------
(* Traces of a real application on virtual time against Stats. Times in eighths of a second after   *)
(* the start; gathering happens every gp seconds; no other event falls on such a moment.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Eps == {} Durs == {} HL == 1 Max == 0 Users == {} LateCount == FALSE
VARIABLES s, fly, done, sum, op
S == INSTANCE Stats
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, next, qs, bad
tv == <<l, conf, next, qs, bad, s, fly, done, sum, op>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Keep == UNCHANGED <<fly, done, sum, op>>
SetOf(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Due(_, _, _)
Due(x, n, tm) == IF n <= tm THEN Due(S!Gather(x, qs, conf.hl), n + conf.gp * 8, tm) ELSE [s |-> x, n |-> n]
(* an observation: e: <<route, count, 100*8*p95, 100*8*p99>>, u: <<key, value>>, q: <<queue, size>> *)
Ep(o, x) == LET m == {i \in DOMAIN o.e : o.e[i][1] = x} IN IF m = {} THEN <<>> ELSE LET i == CHOOSE i \in m : TRUE IN <<o.e[i][2], o.e[i][3], o.e[i][4]>>
Us(o, k) == LET m == {i \in DOMAIN o.u : o.u[i][1] = k} IN IF m = {} THEN 0 ELSE o.u[CHOOSE i \in m : TRUE][2]
Qs(o, k) == LET m == {i \in DOMAIN o.q : o.q[i][1] = k} IN IF m = {} THEN -1 ELSE o.q[CHOOSE i \in m : TRUE][2]
ObsBad(e, w, o, p) ==
  (* the call that reads the statistics may already be counted in its own answer *)
  {B(e, p \o ".calls", <<x, w.e[x]>>, Ep(o, x)) : x \in {y \in DOMAIN w.e : Ep(o, y) # w.e[y] /\ ~(p = "cur" /\ y = "eco.statistics.get" /\ Ep(o, y) = [w.e[y] EXCEPT ![1] = @ + 1])}} \cup
  {B(e, p \o ".user", <<k, IF k \in DOMAIN w.u THEN w.u[k] ELSE 0>>, Us(o, k)) :
      k \in {y \in DOMAIN w.u \cup {o.u[i][1] : i \in DOMAIN o.u} : Us(o, y) # (IF y \in DOMAIN w.u THEN w.u[y] ELSE 0)}} \cup
  {B(e, p \o ".queues", <<k, w.q[k]>>, Qs(o, k)) : k \in {y \in DOMAIN w.q : Qs(o, y) # w.q[y]}} \cup
  (IF o.m = 1 THEN {} ELSE {B(e, p \o ".meta", "time, period and application", o.m)})
FullBad(e, h) ==
  IF Len(h) # Len(e.obs) THEN {B(e, "full.length", Len(h), Len(e.obs))}
  ELSE UNION {ObsBad(e, h[i], e.obs[i], "full") : i \in DOMAIN h}
(* whatever ends while statistics are gathered counts in the one period or the other *)
RECURSIVE SumE(_, _, _)
SumE(os, x, i) == IF i = 0 THEN 0 ELSE SumE(os, x, i - 1) + (IF Ep(os[i], x) = <<>> THEN 0 ELSE Ep(os[i], x)[1])
RECURSIVE SumU(_, _, _)
SumU(os, k, i) == IF i = 0 THEN 0 ELSE SumU(os, k, i - 1) + Us(os[i], k)
TotBad(e) ==
  {B(e, "total.calls", e.n[i], SumE(e.obs, e.n[i][1], Len(e.obs))) : i \in {j \in DOMAIN e.n : SumE(e.obs, e.n[j][1], Len(e.obs)) # e.n[j][2]}} \cup
  {B(e, "total.user", e.u[i], SumU(e.obs, e.u[i][1], Len(e.obs))) : i \in {j \in DOMAIN e.u : SumU(e.obs, e.u[j][1], Len(e.obs)) # e.u[j][2]}}
TInit == l = 1 /\ conf = [hl |-> 0, gp |-> 1] /\ next = 8 /\ qs = << >> /\ bad = {} /\ s = S!Fresh({}) /\ fly = 0 /\ done = 0 /\ sum = 0 /\ op = 0
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1 /\ Keep
  /\ IF e.ev = "reset" THEN /\ conf' = [hl |-> e.hl, gp |-> e.gp] /\ next' = e.gp * 8 /\ s' = S!Fresh(SetOf(e.eps))
                            /\ qs' = [x \in SetOf(e.qs) |-> 0] /\ UNCHANGED bad
     ELSE IF e.ev = "broken" THEN bad' = bad \cup {B(e, "app.broken", "runs", e.why)} /\ UNCHANGED <<conf, next, qs, s>>
     ELSE LET d == Due(s, next, e.tm) IN
       /\ next' = d.n /\ UNCHANGED conf
       /\ CASE e.ev = "fin" -> s' = (IF e.ok = 1 THEN S!Call(d.s, e.x, e.d) ELSE d.s) /\ UNCHANGED <<qs, bad>>
            [] e.ev = "set" -> s' = S!SetU(d.s, e.k, e.v) /\ UNCHANGED <<qs, bad>>
            [] e.ev = "inc" -> s' = S!SetU(d.s, e.k, S!GetU(d.s, e.k) + e.v) /\ UNCHANGED <<qs, bad>>
            [] e.ev = "dec" -> s' = S!SetU(d.s, e.k, S!GetU(d.s, e.k) - e.v) /\ UNCHANGED <<qs, bad>>
            [] e.ev = "siz" -> s' = d.s /\ qs' = [qs EXCEPT ![e.k] = e.v] /\ UNCHANGED bad
            [] e.ev = "cur" -> s' = d.s /\ UNCHANGED qs /\ bad' = bad \cup ObsBad(e, S!View(d.s, qs), e.obs[1], "cur")
            [] e.ev = "tot" -> UNCHANGED <<s, qs>> /\ bad' = bad \cup TotBad(e)
            [] e.ev = "gat" -> s' = d.s /\ UNCHANGED qs /\ bad' = bad \cup FullBad(e, S!Trim(d.s.h, 1))
            [] e.ev = "ful" -> s' = d.s /\ UNCHANGED qs /\ bad' = bad \cup FullBad(e, d.s.h)
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
