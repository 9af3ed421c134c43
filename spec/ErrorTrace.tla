----------------------------- MODULE ErrorTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Ids == {} Variants == {} MaxN == 0
VARIABLES s, op, l, bad
E == INSTANCE ErrorStates
Trace == ndJsonDeserialize(IOEnv.TRACE)
tv == <<s, op, l, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Cmp(e, st) == IF Len(e.obs) = Cardinality(E!Shown(st)) /\ {e.obs[i] : i \in DOMAIN e.obs} = E!Shown(st) THEN {} ELSE {B(e, "error." \o e.ev, E!Shown(st), e.obs)}
TInit == s = << >> /\ op = 0 /\ l = 1 /\ bad = {}
Step == LET e == Trace[l] IN
  /\ l' = l + 1 /\ UNCHANGED op
  /\ CASE e.ev = "reset" -> s' = << >> /\ UNCHANGED bad
       [] e.ev = "inc" -> s' = E!Inc(s, e.k, e.d) /\ UNCHANGED bad
       [] e.ev = "some" -> s' = E!Some(s, e.k, e.n) /\ UNCHANGED bad
       [] e.ev = "all" -> s' = E!All(s, e.k) /\ UNCHANGED bad
       [] e.ev = "clr" -> s' = E!Clr(s, e.k, e.n) /\ bad' = bad \cup Cmp(e, E!Clr(s, e.k, e.n))
       [] e.ev = "get" -> UNCHANGED s /\ bad' = bad \cup Cmp(e, s)
       [] e.ev = "broken" -> UNCHANGED s /\ bad' = bad \cup {B(e, "app.broken", "runs", e.why)}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
