----------------------------- MODULE TracingTrace -----------------------------
(* What a collector received from a real application, against what the application was seen to do.     *)
(* events: reset [routes, keys |-> name of key -> [trace, span], svc]; sent / ans of a request;         *)
(*   proc - an attempt of a buffered endpoint that came to a verdict; restart; spans - all that arrived  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, R, reqs, att, lives, bad
tv == <<l, R, reqs, att, lives, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Idx(q, P(_)) == {j \in DOMAIN q : P(q[j])}
N(q, P(_)) == Cardinality(Idx(q, P))
KeyOf(k) == R.keys[ToString(k)]
Rcv(q, r, k) == Idx(q, LAMBDA s : s.name = R.routes[r] /\ s.trace = KeyOf(k).trace /\ s.parent = KeyOf(k).span)
Prc(q, r, k, n, ok) == Idx(q, LAMBDA s : s.name = r \o ".process" /\ s.trace = KeyOf(k).trace /\ s.attrs.span = KeyOf(k).span /\ s.attrs.n = n /\ s.attrs.ok = ok)
Attr(s) == [trace |-> s.attrs.trace, span |-> s.attrs.span, route |-> s.attrs.route]
Spans(e) ==
  LET q == e.spans
      pairs == {<<reqs[j].r, reqs[j].k>> : j \in DOMAIN reqs}
      atts  == {<<att[j].r, att[j].k, att[j].n, att[j].ok>> : j \in DOMAIN att}
      cnt(r, k, S) == N(reqs, LAMBDA x : x.r = r /\ x.k = k /\ x.st \in S)
      known == UNION {Rcv(q, p[1], p[2]) : p \in pairs} \cup UNION {Prc(q, a[1], a[2], a[3], a[4]) : a \in atts}
  IN
  UNION {LET r == p[1]  k == p[2]  got == Cardinality(Rcv(q, r, k))  ok == cnt(r, k, {0})  lost == cnt(r, k, {-2})
             err == cnt(r, k, {100, 200, 300, 400, 500, 600, 999}) IN
         (IF got < ok THEN {B(e, "receive.missing", <<r, k, ok>>, got)} ELSE {})
         \cup (IF got > ok + err + lost THEN {B(e, "receive.extra", <<r, k, ok + err + lost>>, got)} ELSE {})
         \cup (IF got >= ok /\ got < ok + err THEN {B(e, "receive.failed", <<r, k, ok + err>>, got)} ELSE {})
         \cup UNION {IF Attr(q[j]) = [trace |-> KeyOf(k).uuid, span |-> KeyOf(k).span, route |-> R.routes[r]] THEN {}
                     ELSE {B(e, "receive.attributes", <<r, k>>, Attr(q[j]))} : j \in Rcv(q, r, k)} : p \in pairs}
  \cup UNION {LET r == a[1]  k == a[2]  got == Prc(q, r, k, a[3], a[4])  want == N(att, LAMBDA x : <<x.r, x.k, x.n, x.ok>> = a)
                  pars == {q[j].id : j \in Rcv(q, r, k)} IN
              (IF Cardinality(got) = want THEN {} ELSE {B(e, "process.count", <<a, want>>, Cardinality(got))})
              \cup UNION {IF q[j].parent \in pars THEN {} ELSE {B(e, "process.parent", pars, q[j].parent)} : j \in got}
              \cup UNION {IF q[j].attrs.trace = KeyOf(k).uuid THEN {}
                          ELSE {B(e, "process.attributes", <<r, k>>, q[j].attrs)} : j \in got} : a \in atts}
  \cup UNION {IF j \in known THEN {} ELSE {B(e, "span.unknown", "no such span", q[j])} : j \in DOMAIN q}
  \cup UNION {IF q[j].svc = R.svc THEN {} ELSE {B(e, "service", R.svc, q[j].svc)} : j \in DOMAIN q}
  \cup (IF Cardinality({q[j].id : j \in DOMAIN q}) = Len(q) THEN {} ELSE {B(e, "span.twice", Len(q), Cardinality({q[j].id : j \in DOMAIN q}))})
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset"   -> R' = e /\ reqs' = <<>> /\ att' = <<>> /\ lives' = 1 /\ bad' = bad
       [] e.ev = "sent"    -> reqs' = Append(reqs, [r |-> e.r, k |-> e.k, id |-> e.id, st |-> -1]) /\ UNCHANGED <<R, att, lives, bad>>
       [] e.ev = "ans"     -> reqs' = [j \in DOMAIN reqs |-> IF reqs[j].id = e.id THEN [reqs[j] EXCEPT !.st = e.st] ELSE reqs[j]] /\ UNCHANGED <<R, att, lives, bad>>
       [] e.ev = "proc"    -> att' = Append(att, [r |-> e.r, k |-> e.k, n |-> e.n, ok |-> e.ok]) /\ UNCHANGED <<R, reqs, lives, bad>>
       [] e.ev = "restart" -> lives' = lives + 1 /\ UNCHANGED <<R, reqs, att, bad>>
       [] e.ev = "dead"    -> bad' = bad \cup {B(e, "app.dead", "running", e.why)} /\ UNCHANGED <<R, reqs, att, lives>>
       [] e.ev = "spans"   -> bad' = bad \cup Spans(e) /\ UNCHANGED <<R, reqs, att, lives>>
TInit == l = 1 /\ R = <<>> /\ reqs = <<>> /\ att = <<>> /\ lives = 1 /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
