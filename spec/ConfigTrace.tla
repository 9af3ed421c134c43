----------------------------- MODULE ConfigTrace ------------------------------
EXTENDS Config, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Rng(q) == {q[j] : j \in DOMAIN q}
Diff(e, c, w, g) == IF w = g THEN {} ELSE {B(e, c, w, g)}
(* a fresh process reads its configuration *)
Cfg(e) ==
  IF e.refused = 1 THEN {B(e, "refused.valid", "accepted", e.err)} ELSE
  UNION {Diff(e, "setting." \o s, Eff(e.c, s), Val(e.got, s)) : s \in Leveled}
  \cup UNION {Diff(e, "setting." \o s \o "." \o ToString(j), Part(e.c, s, j), Val(e.got, s \o "." \o ToString(j))) : s \in {"TCP", "UDP"}, j \in {1, 2}}
  \cup Diff(e, "setting.UDS.1", Part(e.c, "UDS", 1), Val(e.got, "UDS.1"))
  \cup (IF FileOf(e.c, "UDS.2") = "DEFAULT" \/ (Given(e.c, "UDS") /\ InstOf(e.c, "UDS") = "" /\ FileOf(e.c, "UDS.2") = "")
        THEN {} ELSE Diff(e, "setting.UDS.2", Part(e.c, "UDS", 2), Val(e.got, "UDS.2")))   \* resolved when the server is created
  \cup UNION {Diff(e, "extra", Extra(e.c, n), Val(e.got, "EXTRA." \o n)) : n \in Rng(e.names)}
  \cup Diff(e, "name", e.c.name, Val(e.got, "name")) \cup Diff(e, "instance", e.c.inst, Val(e.got, "inst"))
(* the same seen on a running application *)
Addr(c, s) == IF Given(c, s) THEN {Part(c, s, 1) \o ":" \o Part(c, s, 2)} ELSE {}
Run(e) ==
  IF e.up = 0 THEN {B(e, "refused.valid", "runs", e.err)} ELSE
  Diff(e, "run.lock", {LockFile(e.c)}, Rng(e.lock))
  \cup Diff(e, "run.log", IF e.console = 1 THEN {} ELSE {LogFile(e.c)}, Rng(e.log))
  \cup Diff(e, "run.tcp", Addr(e.c, "TCP"), Rng(e.tcp)) \cup Diff(e, "run.udp", Addr(e.c, "UDP"), Rng(e.udp))
  \cup Diff(e, "run.uds", IF Given(e.c, "UDS") THEN {Part(e.c, "UDS", 1) \o "/" \o Part(e.c, "UDS", 2)} ELSE {}, Rng(e.uds))
  \cup Diff(e, "run.buffers", {Eff(e.c, "BUFFER_DIR")}, Rng(e.buf))
  \cup (IF e.console = 1 THEN {} ELSE Diff(e, "run.level", Shown(e.c), e.shown))
  \cup (IF e.fileonly = 1 THEN Diff(e, "run.console", <<>>, e.cons) ELSE Diff(e, "run.console", Shown(e.c), e.cons))
  \cup UNION {Diff(e, "run.extra", Extra(e.c, n), Val(e.extra, n)) : n \in Rng(e.names)}
  \cup (IF e.hist >= 0 THEN Diff(e, "run.history", Eff(e.c, "STAT_HL"), ToString(e.hist)) ELSE {})
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ bad' = bad \cup (CASE e.ev = "cfg" -> Cfg(e) [] e.ev = "run" -> Run(e)
                        [] e.ev = "invalid" -> IF e.refused = 1 THEN {} ELSE {B(e, "invalid." \o e.which, "refused", "ran with it")}
                        [] OTHER -> {})
TInit == l = 1 /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_<<l, bad>>
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
