--------------------------- MODULE BufferedTrace ---------------------------
(* Traces of the real application (one or more buffered endpoints / senders) against BufferedOps.  *)
EXTENDS BufferedOps, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, S, skip, bad
tv == <<l, conf, S, skip, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Chk(e, c, w, g) == IF w = g THEN {} ELSE {B(e, c, w, g)}
BI(b) == IF b THEN 1 ELSE 0
Conf(e, r) == [kind |-> e.conf[r].kind, maxr |-> e.conf[r].maxr, slow |-> e.conf[r].slow = 1, mw |-> e.conf[r].mw = 1, mis |-> {}]
Range(q) == {q[i] : i \in DOMAIN q}

Info(s) == <<Len(s.pend), Len(s.err), BI(s.rp), BI(s.pp)>>
(* what is seen of one route once it has settled *)
ObsBad(e, r, s, kind) ==
  LET o == e.obs[r] IN
  Chk(e, kind \o ".obs.pending", Len(s.pend), o.i[1]) \cup
  (IF Len(o.i) < 4 THEN {B(e, kind \o ".obs.info", Info(s), o.i)} ELSE
     Chk(e, kind \o ".obs.error", Len(s.err), o.i[2]) \cup
     Chk(e, kind \o ".obs.rpaused", BI(s.rp), o.i[3]) \cup
     Chk(e, kind \o ".obs.ppaused", BI(s.pp), o.i[4])) \cup
  Chk(e, kind \o ".obs.errkeys", FirstKeys(s.err, 10), o.f) \cup
  (IF conf[r].slow THEN {} ELSE Chk(e, kind \o ".obs.busy", KeySeq(s.inf), o.b))   \* one at a time
EvBad(e, r, ev, c) ==
  LET g == e.evs[r] IN
  Chk(e, c.kind \o ".start", ev.st, g.st) \cup
  Chk(e, c.kind \o ".payload", <<>>, g.pay) \cup
  (IF c.kind = "snd" \/ ~c.mw THEN {} ELSE Chk(e, "ep.mw", ev.mw, g.mw))
PushBad(e, r, o, c) ==      \* before_push: once per middleware, in order, for accepted requests only
  LET want == IF c.kind # "ep" \/ e.st # 0 THEN <<>>
              ELSE IF o \in {"accept", "let"} THEN <<[w |-> 1, k |-> e.k], [w |-> 2, k |-> e.k]>> ELSE <<>>
  IN IF o = "burst" \/ ~c.mw THEN {} ELSE Chk(e, "ep.push", want, e.evs[r].push)

Others(e, r) == UNION {ObsBad(e, x, S[x], conf[x].kind) \cup EvBad(e, x, NoEv, conf[x]) : x \in DOMAIN S \ {r}}
RespBad(e, r, res, after, c) ==
  LET q1 == Info(res.s)   q2 == Info(after)
      mg == e.n \notin {"accept", "burst", "release", "auto", "arm", "hold", "let", "nop"}
      p  == c.kind \o ".resp." \o e.n \o "."
  IN
  Chk(e, p \o "status", res.st, e.st) \cup
  Chk(e, p \o "spankey", 1, e.sk) \cup
  (IF mg /\ res.st = 0 /\ e.n # "first10" /\ e.q # q1 /\ e.q # q2 THEN {B(e, p \o "info", q1, e.q)} ELSE {}) \cup
  (IF mg THEN Chk(e, p \o "message", 1, e.msg) \cup Chk(e, p \o "data", res.d, e.d) ELSE {}) \cup
  (IF e.n = "first10" THEN Chk(e, p \o "keys", res.ks, e.l) ELSE {})

TInit == l = 1 /\ conf = [x \in {} |-> 0] /\ S = [x \in {} |-> 0] /\ skip = FALSE /\ bad = {}
Flag(b) == bad' = bad \cup b /\ skip' = (b # {})
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> /\ conf' = [r \in DOMAIN e.conf |-> Conf(e, r)]
                            /\ S' = [r \in DOMAIN e.conf |-> Fresh] /\ skip' = FALSE /\ bad' = bad
       [] e.ev # "reset" /\ skip -> UNCHANGED <<conf, S, skip, bad>>
       [] e.ev = "dead" /\ ~skip -> Flag({B(e, "app.dead", "running", e.why)}) /\ UNCHANGED <<conf, S>>
       [] e.ev = "term" /\ ~skip ->
            LET b == Chk(e, "app.exit", "exit", e.x) \cup UNION {Chk(e, conf[r].kind \o ".start", <<>>, e.evs[r].st) : r \in DOMAIN S}
            IN S' = [r \in DOMAIN S |-> IF r = e.r THEN TermAt(conf[r], S[r], e.how, e.o) ELSE Term(S[r])] /\ UNCHANGED conf /\ Flag(b)
       [] e.ev = "boot" /\ ~skip ->
            LET C == [r \in DOMAIN S |-> [conf[r] EXCEPT !.mis = Range(e.mis[r])]]
                T == [r \in DOMAIN S |-> Settle(C[r], S[r], NoEv)]
                b == UNION {ObsBad(e, r, T[r].s, conf[r].kind) \cup EvBad(e, r, T[r].ev, conf[r]) : r \in DOMAIN S}
            IN S' = [r \in DOMAIN S |-> T[r].s] /\ conf' = C /\ Flag({[x EXCEPT !.clause = "boot." \o @] : x \in b})
       [] e.ev = "op" /\ ~skip /\ e.r \notin DOMAIN S ->      \* an endpoint / sender that does not exist
            LET b == Chk(e, "unknown.resp." \o e.n, <<-1, 1, <<>>, <<>>>>, <<e.st, e.msg, e.d, e.l>>) \cup Others(e, "")
            IN Flag(b) /\ UNCHANGED <<conf, S>>
       [] e.ev = "op" /\ ~skip /\ e.r \in DOMAIN S ->
            LET c == conf[e.r]
                res == Apply(c, S[e.r], e)
                t == Settle(c, res.s, res.ev)
                b == RespBad(e, e.r, res, t.s, c) \cup ObsBad(e, e.r, t.s, c.kind) \cup EvBad(e, e.r, t.ev, c)
                     \cup PushBad(e, e.r, e.n, c) \cup Others(e, e.r)
            IN S' = [S EXCEPT ![e.r] = t.s] /\ UNCHANGED conf /\ Flag(b)
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
