------------------------------ MODULE ChainTrace ------------------------------
(* What was seen of two applications and of the connection between them, merged by time:                  *)
(*  enq k st    a was asked to take k and answered st        hand k   a's handler puts k on the sender       *)
(*  fwd k v     a request of a's arrives at the proxy        tob k    it is passed on to b                   *)
(*  (x, where it is given, is the number of the exchange)  refuse, listen: a cannot / can connect to the proxy *)
(*  rsp k st    b's answer arrives at the proxy              del k st it is passed on to a                   *)
(*  flt k x     the proxy did something to this exchange     hs k v / he k o   b's handler starts / ends     *)
(*  term, down, up x   a or b gets a signal, has ended, is there again;  rep: errors are reprocessed          *)
(*  mid, end sz err    everything came to rest: [pending, error] and first error keys of a's endpoint, a's    *)
(*                     sender and b's endpoint                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, ref, s, tt, bad           \* s: k -> counters; w: time within which an answer was certainly in time; tt: x -> time of the last signal
tv == <<l, w, ref, s, tt, bad>>
Zero == [enq |-> 0, may |-> 0, hand |-> 0, fms |-> 0, dms |-> 0, clean |-> 0, tob |-> 0, rsp |-> 0, acc |-> 0, badA |-> 0, badB |-> 0, fx |-> 0, na |-> 0, ok |-> 0, hms |-> 0, extra |-> 0, open |-> 0]
B(e, c, x, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(x), got |-> ToString(g)]
If(c, x) == IF c THEN {x} ELSE {}
Has(k) == k \in DOMAIN s
Of(k) == IF Has(k) THEN s[k] ELSE Zero
Set(k, v) == [j \in (DOMAIN s) \cup {k} |-> IF j = k THEN v ELSE s[j]]
Range(q) == {q[k] : k \in 1..Len(q)}
Sum(z) == z[1][1] + z[2][1] + z[3][1]
Errs(e) == Range(e.err[1]) \cup Range(e.err[2]) \cup Range(e.err[3])
Whole(e) == \A q \in 1..3 : e.sz[q][2] <= 10            \* the lists of failed keys are complete
Owed == {k \in DOMAIN s : s[k].enq = 1}
TInit == l = 1 /\ w = 0 /\ ref = 0 /\ s = <<>> /\ tt = [a |-> 0, b |-> 0] /\ bad = {}
Rest(e) == UNION {
     If(s[k].ok = 0 /\ Sum(e.sz) = 0 /\ Whole(e) /\ k \notin Errs(e), B(e, "lost", <<k, "handled, waiting or failed">>, e.sz))
     \cup If(s[k].ok > s[k].acc + (s[k].tob - s[k].rsp) + s[k].extra, B(e, "repeated", <<k, s[k].acc, s[k].tob - s[k].rsp>>, s[k].ok)) : k \in Owed}
  \cup {B(e, "error.reason", <<"fails in a's endpoint", k>>, e.err[1]) : k \in Range(e.err[1]) \ DOMAIN s}
  \cup {B(e, "error.reason", <<"a was refused, not answered or failed", k>>, e.err[2]) : k \in {x \in Range(e.err[2]) : Of(x).badA = 0 /\ Of(x).na = 0}}
  \cup {B(e, "error.reason", <<"b's handler failed", k>>, e.err[3]) : k \in {x \in Range(e.err[3]) : Of(x).badB = 0}}
  \cup If(Sum(e.sz) # 0, B(e, "stalled", "nothing pending", e.sz))
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ IF e.ev = "reset" THEN w' = e.win /\ ref' = 0 /\ s' = <<>> /\ tt' = [a |-> 0, b |-> 0] /\ bad' = bad
     ELSE IF e.ev \in {"mid", "end"} THEN
       /\ bad' = bad \cup Rest(e)
            \cup (IF e.ev = "mid" THEN {} ELSE UNION {If(s[k].ok = 0 /\ Sum(e.sz) = 0, B(e, "lost.end", <<k, "handled">>, <<e.sz, e.err>>)) : k \in Owed})
       /\ UNCHANGED <<w, ref, s, tt>>
     ELSE IF e.ev = "dead" THEN bad' = bad \cup {B(e, "life", "starts and ends in time", e.x)} /\ UNCHANGED <<w, ref, s, tt>>
     ELSE IF e.ev = "rep" THEN UNCHANGED <<w, ref, s, tt, bad>>
     ELSE IF e.ev \in {"refuse", "listen"} \/ (e.ev = "flt" /\ e.k = 0) THEN        \* whatever a has in hand may fail
       /\ ref' = IF e.ev = "flt" THEN ref ELSE IF e.ev = "refuse" THEN 1 ELSE 0
       /\ s' = [k \in DOMAIN s |-> IF s[k].hand > 0 /\ e.ev # "listen" THEN [s[k] EXCEPT !.badA = 1] ELSE s[k]]
       /\ UNCHANGED <<w, tt, bad>>
     ELSE IF e.ev = "term" THEN
       /\ tt' = [tt EXCEPT ![e.x] = e.ms]
       (* an exchange on its way when a is told to end is nobody's any more; what b handles right then it may handle again *)
       /\ s' = [k \in DOMAIN s |-> IF e.x = "a" THEN IF s[k].dms + 300 > e.ms THEN [s[k] EXCEPT !.clean = 0, !.badA = 1] ELSE s[k]
                                    ELSE IF s[k].open = 1 \/ s[k].hms + 300 > e.ms THEN [s[k] EXCEPT !.extra = @ + 1] ELSE s[k]]
       /\ UNCHANGED <<w, ref, bad>>
     ELSE IF e.ev \in {"up", "down"} THEN
       /\ s' = IF e.ev = "down" /\ e.x = "b" THEN [k \in DOMAIN s |-> IF s[k].hms > tt["b"] THEN [s[k] EXCEPT !.extra = @ + 1] ELSE s[k]] ELSE s
       /\ UNCHANGED <<w, ref, tt, bad>>
     ELSE LET k == e.k  o == Of(k) IN
       /\ UNCHANGED <<w, ref, tt>>
       /\ CASE e.ev = "enq" -> s' = Set(k, [o EXCEPT !.enq = IF e.st = 0 THEN 1 ELSE 0, !.may = 1]) /\ bad' = bad \cup If(e.st # 0, B(e, "refused", 0, e.st))
            [] e.ev = "hand" -> s' = Set(k, [o EXCEPT !.hand = @ + 1, !.clean = 0, !.badA = IF ref = 1 THEN 1 ELSE @]) /\ bad' = bad
            [] e.ev = "fwd" ->
                 /\ s' = Set(k, [o EXCEPT !.fms = e.ms, !.fx = e.x, !.clean = 0, !.na = 1, !.badA = IF o.na = 1 THEN 1 ELSE @])
                 /\ bad' = bad \cup If(o.hand = 0 \/ e.v # k, B(e, "sent", <<k, "what was enqueued, unchanged">>, <<o.hand, e.v>>))
                      \cup If(o.clean = 1, B(e, "sent.again", <<k, "answered in time with success">>, o))
            [] e.ev = "tob" -> s' = Set(k, [o EXCEPT !.tob = @ + 1]) /\ bad' = bad
            [] e.ev = "rsp" -> s' = Set(k, [o EXCEPT !.rsp = @ + 1, !.acc = IF e.st = 0 THEN @ + 1 ELSE @, !.badA = IF e.st = 0 THEN @ ELSE 1])
                               /\ bad' = bad \cup If(e.st \notin {0, 500}, B(e, "answer", "0 or busy", e.st))
            [] e.ev = "del" -> /\ s' = Set(k, [o EXCEPT !.dms = e.ms, !.na = IF e.x = o.fx THEN 0 ELSE @, !.clean = IF e.st = 0 /\ e.x = o.fx /\ e.ms < o.fms + w /\ e.ms > tt["a"] + 300 THEN 1 ELSE 0,
                                                        !.badA = IF e.x = o.fx /\ e.ms < o.fms + w THEN @ ELSE 1])
                               /\ bad' = bad
            [] e.ev = "flt" -> s' = Set(k, [o EXCEPT !.badA = 1]) /\ bad' = bad
            [] e.ev = "hs" -> /\ s' = Set(k, [o EXCEPT !.open = 1, !.hms = e.ms])
                              /\ bad' = bad \cup If(o.tob = 0 \/ e.v # k, B(e, "handled", <<k, "what was sent, unchanged">>, <<o.tob, e.v>>))
                                   \cup If(o.ok >= o.tob + o.extra, B(e, "handled.again", <<k, o.tob, o.extra>>, o.ok))
            [] e.ev = "he" -> s' = Set(k, [o EXCEPT !.open = 0, !.hms = e.ms, !.ok = IF e.o = "ok" THEN @ + 1 ELSE @, !.badB = IF e.o = "ok" THEN @ ELSE 1]) /\ bad' = bad
            [] OTHER -> s' = s /\ bad' = bad
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
