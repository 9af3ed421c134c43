---------------------------- MODULE ClientTrace -----------------------------
(* Traces of real clients against a scripted server, on virtual time (ms).                          *)
(* reset(kind, maxr, T, delay, solo) | call(id) | tx(id,k,c) | rs(id,k,c,s) | cl(c,how) | dn | up   *)
(* | jam (after dn: who connects is kept waiting) | ret(id,o,v) | end ; every line has tm             *)
EXTENDS ClientOps, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, calls, down, jam, idle, bad
tv == <<l, cfg, calls, down, jam, idle, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
NoCfg == [kind |-> "tt", maxr |-> 1, T |-> 0, delay |-> 0, solo |-> 0, jd |-> 0]

(* attempts: [tm, c, k, fate, ft, s]; fate "?" = open *)
Settle(a, now) == IF a.fate = "?" /\ now >= a.tm + cfg.T - 1 THEN [a EXCEPT !.fate = "timeout", !.ft = a.tm + cfg.T] ELSE a
SettleAll(cs, now) == [x \in DOMAIN cs |-> [cs[x] EXCEPT !.a = [j \in DOMAIN cs[x].a |-> Settle(cs[x].a[j], now)]]]
OnRs(cs, e) == [x \in DOMAIN cs |-> IF x # e.id THEN cs[x] ELSE
   [cs[x] EXCEPT !.a = [j \in DOMAIN cs[x].a |-> LET a == cs[x].a[j] IN
      IF a.fate = "?" /\ a.k = e.k THEN [a EXCEPT !.fate = IF e.s = 0 THEN "ok" ELSE "status", !.ft = e.tm, !.s = e.s] ELSE a]]]
OnCl(cs, e) == [x \in DOMAIN cs |->
   [cs[x] EXCEPT !.a = [j \in DOMAIN cs[x].a |-> LET a == cs[x].a[j] IN
      IF a.fate = "?" /\ a.c = e.c THEN [a EXCEPT !.fate = e.how, !.ft = e.tm] ELSE a]]]
Pending(cs, c) == \E x \in DOMAIN cs : cs[x].st = "run" /\ \E j \in DOMAIN cs[x].a : cs[x].a[j].fate = "?" /\ cs[x].a[j].c = c

TxBad(cs, e) ==
  IF e.id \notin DOMAIN cs THEN {B(e, "tx.unknown", "a request of a call", e.id)} ELSE
  LET c == cs[e.id]  n == Len(c.a)
      due == IF n = 0 THEN c.tm ELSE c.a[n].ft + cfg.delay IN
  (IF c.st = "run" THEN {} ELSE {B(e, "tx.afterend", "no transmission after the call ended", e.tm)}) \cup
  (IF n < cfg.maxr THEN {} ELSE {B(e, "tx.budget", cfg.maxr, n + 1)}) \cup
  (IF n > 0 /\ c.a[n].fate = "?" THEN {B(e, "tx.early", "attempt before the previous one ended", e.tm)} ELSE
   IF n > 0 /\ ~Retryable(cfg.kind, c.a[n].fate) /\ c.st = "run" THEN {B(e, "tx.final", "no retry after " \o c.a[n].fate, e.tm)} ELSE
   IF c.st = "run" /\ e.tm < due - 2 THEN {B(e, "tx.pace", due, e.tm)} ELSE
   IF c.st = "run" /\ cfg.solo = 1 /\ e.tm > due + 2 + (idle * cfg.delay) + (cfg.jd * cfg.T) + (IF c.dn THEN cfg.maxr * (cfg.T + cfg.delay) ELSE 0)
     THEN {B(e, "tx.pace", due, e.tm)} ELSE {})

RetBad(cs, e) ==
  IF e.id \notin DOMAIN cs \/ cs[e.id].st # "run" THEN {B(e, "ret.twice", "one end per call", e.id)} ELSE
  LET c == cs[e.id]  n == Len(c.a)
      f == IF n = 0 THEN "none" ELSE c.a[n].fate
      lost == idle + (IF c.dn /\ cfg.kind = "ud" THEN cfg.maxr ELSE 0) IN
  CASE c.jm /\ e.o # "cancelled" -> \* nobody lets it in: every attempt waits for a connection, and gives up in time
         (IF e.o = "CommunicationsMaxRetriesReached" THEN {} ELSE {B(e, "ret.outcome", "nobody answered", e.o)}) \cup
         (IF e.tm <= c.tm + cfg.maxr * (2 * cfg.T + cfg.delay) + 5 /\ e.tm >= c.tm + (cfg.maxr - 1) * cfg.delay THEN {}
          ELSE {B(e, "ret.pace", c.tm + cfg.maxr * cfg.T + (cfg.maxr - 1) * cfg.delay, e.tm)})
    [] e.o = "cancelled" -> IF c.cn = 1 THEN {} ELSE {B(e, "ret.outcome", "not cancelled", e.o)}
    [] e.o = "ok" ->
         (IF e.v = e.id THEN {} ELSE {B(e, "ret.own", e.id, e.v)}) \cup
         (IF \E j \in DOMAIN c.a : c.a[j].fate = "ok" \/ (c.a[j].fate = "timeout" /\ e.v = e.id) THEN {} ELSE {B(e, "ret.outcome", f, "ok")})
    [] e.o = "CommunicationsMaxRetriesReached" ->
         (IF (\A j \in DOMAIN c.a : c.a[j].fate = "?" \/ Retryable(cfg.kind, c.a[j].fate)) /\ f # "?" THEN {} ELSE {B(e, "ret.outcome", f, e.o)}) \cup
         (IF n <= cfg.maxr /\ n + lost >= cfg.maxr THEN {} ELSE {B(e, "ret.budget", cfg.maxr, n)}) \cup
         (IF cfg.solo = 0 \/ c.dn \/ n = 0 \/ e.tm <= c.a[n].ft + 2 + (idle * cfg.delay) THEN {} ELSE {B(e, "ret.pace", c.a[n].ft, e.tm)})
    [] e.o = "CommunicationsNonRetryable" ->
         IF (down /\ ~jam /\ cfg.kind # "ud") \/ (n > 0 /\ f \in {"closed", "refused"} /\ ~Retryable(cfg.kind, f)) THEN {}
         ELSE {B(e, "ret.outcome", IF n = 0 THEN "none" ELSE Outcome(cfg.kind, f, 0), e.o)}
    [] OTHER ->
         IF n > 0 /\ f = "status" /\ e.o = StatusException(c.a[n].s)
         THEN (IF e.v = 1 THEN {} ELSE {B(e, "ret.message", "the data of the response", e.o)})
         ELSE {B(e, "ret.outcome", IF n = 0 THEN "none" ELSE Outcome(cfg.kind, f, IF n > 0 THEN c.a[n].s ELSE 0), e.o)}

EndBad(e) == {B(e, "ret.finish", "every call ends", x) : x \in {y \in DOMAIN calls : calls[y].st = "run"}}

TInit == l = 1 /\ cfg = NoCfg /\ calls = << >> /\ down = FALSE /\ jam = FALSE /\ idle = 0 /\ bad = {}
Step ==
  LET e  == Trace[l]
      cs == IF e.ev = "reset" THEN << >> ELSE SettleAll(calls, e.tm) IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> cfg' = [kind |-> e.kind, maxr |-> e.maxr, T |-> e.T, delay |-> e.delay, solo |-> e.solo, jd |-> 0]
                            /\ calls' = << >> /\ down' = FALSE /\ jam' = FALSE /\ idle' = 0 /\ bad' = bad
       [] e.ev = "call" -> calls' = (e.id :> [st |-> "run", tm |-> e.tm, a |-> <<>>, cn |-> e.cn, dn |-> down, jm |-> jam]) @@ cs
                           /\ UNCHANGED <<cfg, down, jam, idle, bad>>
       [] e.ev = "tx" -> /\ bad' = bad \cup TxBad(cs, e)
                         /\ calls' = IF e.id \in DOMAIN cs
                              THEN [cs EXCEPT ![e.id].a = Append(@, [tm |-> e.tm, c |-> e.c, k |-> e.k, fate |-> "?", ft |-> 0, s |-> 0])] ELSE cs
                         /\ UNCHANGED <<cfg, down, jam, idle>>
       [] e.ev = "rs" -> calls' = OnRs(cs, e) /\ UNCHANGED <<cfg, down, jam, idle, bad>>
       [] e.ev = "cl" -> /\ calls' = OnCl(cs, e)
                         /\ idle' = IF cfg.kind = "pp" /\ ~Pending(cs, e.c) THEN idle + 1 ELSE idle
                         /\ UNCHANGED <<cfg, down, jam, bad>>
       [] e.ev = "dn" -> down' = TRUE /\ calls' = [x \in DOMAIN cs |-> [cs[x] EXCEPT !.dn = TRUE]] /\ UNCHANGED <<cfg, jam, idle, bad>>
       [] e.ev = "up" -> down' = FALSE /\ jam' = FALSE /\ calls' = cs /\ UNCHANGED <<cfg, idle, bad>>
       [] e.ev = "jam" -> jam' = TRUE /\ cfg' = [cfg EXCEPT !.jd = 1] /\ calls' = cs /\ UNCHANGED <<down, idle, bad>>
       [] e.ev = "ret" -> /\ bad' = bad \cup RetBad(cs, e)
                          /\ calls' = IF e.id \in DOMAIN cs THEN [cs EXCEPT ![e.id].st = "done"] ELSE cs
                          /\ UNCHANGED <<cfg, down, jam, idle>>
       [] e.ev = "end" -> bad' = bad \cup EndBad(e) /\ calls' = cs /\ UNCHANGED <<cfg, down, jam, idle>>
       [] OTHER -> calls' = cs /\ UNCHANGED <<cfg, down, jam, idle, bad>>
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
