--------------------------- MODULE LifecycleTrace ----------------------------
(* Lives of a real application: sub (request i of route r is sent), acc (its answer), st / fin (handler or send starts,  *)
(* ends with o), down (the process has ended: x), boot (a new one reports, per route, its error list and the number of   *)
(* items pending or being worked on), end (everything left was worked on).                                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, acked, errs, bad      \* s: i -> [r, x], x in "sub", "taken", "done", "err", "refused"
tv == <<l, s, acked, errs, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
If(c, x) == IF c THEN {x} ELSE {}
Set(m, i, v) == [j \in (DOMAIN m) \cup {i} |-> IF j = i THEN v ELSE m[j]]
Range(q) == {q[k] : k \in 1..Len(q)}
Of(r, xs) == {i \in DOMAIN s : s[i].r = r /\ s[i].x \in xs}
TInit == l = 1 /\ s = <<>> /\ acked = {} /\ errs = <<>> /\ bad = {}
BootBad(e) == UNION {
    If(Range(e.err[r]) # Of(r, {"err"}) \/ Len(e.err[r]) # Cardinality(Range(e.err[r])), B(e, "errors", <<r, Of(r, {"err"})>>, e.err[r]))
    \cup If(e.n[r] < Cardinality(Of(r, {"sub", "taken"}) \cap acked), B(e, "lost", <<r, Of(r, {"sub", "taken"}) \cap acked>>, e.n[r]))
    \cup If(e.n[r] > Cardinality(Of(r, {"sub", "taken"})), B(e, "extra", <<r, Of(r, {"sub", "taken"})>>, e.n[r])) : r \in DOMAIN e.n}
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> s' = <<>> /\ acked' = {} /\ errs' = <<>> /\ bad' = bad
       [] e.ev = "sub" -> s' = Set(s, e.id, [r |-> e.r, x |-> "sub"]) /\ UNCHANGED <<acked, errs, bad>>
       [] e.ev = "acc" -> /\ acked' = IF e.st = 0 THEN acked \cup {e.id} ELSE acked
                          /\ s' = IF e.st # 0 /\ e.st # 9999 /\ s[e.id].x = "sub" THEN [s EXCEPT ![e.id].x = "refused"] ELSE s
                          /\ UNCHANGED <<errs, bad>>
       [] e.ev = "st" ->
            /\ bad' = bad \cup (IF e.id \notin DOMAIN s THEN {B(e, "unknown", "a request that was sent", e.id)}
                                ELSE If(s[e.id].x # "sub", B(e, "again", "sub", <<e.id, s[e.id].x>>)) \cup If(Of(e.r, {"taken"}) # {}, B(e, "serial", Of(e.r, {"taken"}), e.id)))
            /\ s' = Set(s, e.id, [r |-> e.r, x |-> "taken"]) /\ UNCHANGED <<acked, errs>>
       [] e.ev = "fin" -> s' = [s EXCEPT ![e.id].x = IF e.o = "ok" THEN "done" ELSE "err"] /\ UNCHANGED <<acked, errs, bad>>
       [] e.ev = "down" ->
            /\ bad' = bad \cup If(e.x # "exit", B(e, "exit", "ends by itself", e.x))
            /\ s' = [i \in DOMAIN s |-> IF s[i].x = "taken" THEN [s[i] EXCEPT !.x = "sub"] ELSE s[i]]
            /\ UNCHANGED <<acked, errs>>
       [] e.ev = "boot" -> bad' = bad \cup BootBad(e) /\ UNCHANGED <<s, acked, errs>>
       [] e.ev = "dead" -> bad' = bad \cup {B(e, "restart", "starts again", e.x)} /\ UNCHANGED <<s, acked, errs>>
       [] e.ev = "end" -> bad' = bad \cup BootBad(e) \cup If(\E i \in acked : s[i].x \notin {"done", "err"}, B(e, "unfinished", "done", {i \in acked : s[i].x \notin {"done", "err"}}))
                          /\ UNCHANGED <<s, acked, errs>>
       [] OTHER -> UNCHANGED <<s, acked, errs, bad>>
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
