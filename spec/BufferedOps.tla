---------------------------- MODULE BufferedOps ----------------------------
(* What a buffered endpoint ("ep") or a buffered sender ("snd") does, as pure operators on its    *)
(* abstract state.                                                                                *)
(*   item  = [k |-> span key, n |-> attempts used, m |-> metadata token attached at acceptance]   *)
(*   state = [pend, err : Seq(item), inf : Seq(item) of length 0 or 1 (being handled / sent),     *)
(*            rp, pp : receiving / processing (sending) paused,                                   *)
(*            auto : Seq(outcome) outcomes of the next handler calls, arm : middleware fault,     *)
(*            held : Seq(key) of a request the middleware keeps waiting before it is queued,      *)
(*            rpd : receiving was paused while it waited]                                         *)
(*   conf  = [kind |-> "ep"|"snd", maxr |-> max_retries, slow |-> BOOLEAN, mis |-> keys whose data,  *)
(*            stored by an earlier life, is not what this life of the application expects]           *)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [pend |-> <<>>, err |-> <<>>, inf |-> <<>>, rp |-> FALSE, pp |-> FALSE, auto |-> <<>>, arm |-> "", held |-> <<>>, rpd |-> FALSE]
KeysOf(q) == {q[i].k : i \in DOMAIN q}
KeySeq(q) == [i \in DOMAIN q |-> q[i].k]
PushQ(q, it) == IF it.k \in KeysOf(q) THEN q ELSE Append(q, it)
WithoutKey(q, k) == SelectSeq(q, LAMBDA it : it.k # k)
ItemOf(q, k) == q[CHOOSE i \in DOMAIN q : q[i].k = k]
FirstKeys(q, c) == SubSeq(KeySeq(q), 1, IF Len(q) < c THEN Len(q) ELSE c)

Max(a, b) == IF a > b THEN a ELSE b
Budget(c) == Max(1, c.maxr)

Retryable == {"fail", "busy", "comm"}       \* "ok" | Retryable | anything else = exception

(* ---- one worker step -------------------------------------------------------------------------*)
CanStart(s) == ~s.pp /\ s.inf = <<>> /\ s.pend # <<>>
Start(s) == [s EXCEPT !.inf = <<Head(s.pend)>>, !.pend = Tail(s.pend)]
ToErr(s, it) == [s EXCEPT !.inf = <<>>, !.err = PushQ(s.err, [it EXCEPT !.n = 0])]
Finish(c, s, o) ==
  LET it == s.inf[1] IN
  CASE o = "ok"          -> [s EXCEPT !.inf = <<>>]
    [] o \in Retryable   -> IF it.n + 1 >= c.maxr THEN ToErr(s, it)
                            ELSE [s EXCEPT !.inf = <<>>, !.pend = PushQ(s.pend, [it EXCEPT !.n = it.n + 1])]
    [] OTHER             -> ToErr(s, it)
(* Termination: the item in hand goes back to pending, nothing else changes; flags do not persist. *)
Term(s) == [s EXCEPT !.inf = <<>>, !.pend = IF s.inf = <<>> THEN s.pend ELSE PushQ(s.pend, s.inf[1]),
                     !.rp = FALSE, !.pp = FALSE, !.auto = <<>>, !.arm = "", !.held = <<>>, !.rpd = FALSE]
(* Termination while the middleware is at work: after the verdict o on the item in hand ("a"), or   *)
(* before the handler of the next one was called ("b").                                             *)
TermAt(c, s, how, o) ==
  IF how = "" \/ s.inf = <<>> THEN Term(s)
  ELSE LET s1 == Finish(c, s, o) IN Term(IF how = "b" /\ CanStart(s1) THEN Start(s1) ELSE s1)

(* ---- observable events of a worker step (st: handler/send calls, mw: buffered middleware calls) *)
NoEv == [st |-> <<>>, mw |-> <<>>]
Cat(a, b) == [st |-> a.st \o b.st, mw |-> a.mw \o b.mw]
StartEv(c, it) ==
  [st |-> IF c.slow THEN <<>> ELSE <<it.k>>,
   mw |-> IF c.kind = "ep" THEN <<[h |-> "b", w |-> 1, k |-> it.k, n |-> it.n, m |-> it.m],
                                  [h |-> "b", w |-> 2, k |-> it.k, n |-> it.n, m |-> it.m]>> ELSE <<>>]
ArmedEv(it) == [st |-> <<>>, mw |-> <<[h |-> "b", w |-> 1, k |-> it.k, n |-> it.n, m |-> it.m]>>]
FinishEv(c, it, o, arm) ==
  LET a(w) == [h |-> "a", w |-> w, k |-> it.k, n |-> IF o = "ok" THEN 1 ELSE 0, m |-> it.m] IN
  [st |-> <<>>,
   mw |-> IF c.kind # "ep" THEN <<>>
          ELSE IF arm = "a" THEN <<a(1)>> ELSE <<a(1), a(2)>>]
FinishA(c, s, o) == [Finish(c, s, o) EXCEPT !.arm = IF s.arm = "a" THEN "" ELSE s.arm]

(* Everything the worker does until it has to wait: [s, ev] *)
RECURSIVE Settle(_, _, _)
Settle(c, s, ev) ==
  IF ~CanStart(s) THEN [s |-> s, ev |-> ev]
  ELSE LET s1 == Start(s)   it == s1.inf[1] IN
       IF it.k \in c.mis THEN Settle(c, ToErr(s1, it), ev)          \* kept, and the ones behind it go on
       ELSE IF s.arm = "b" THEN Settle(c, [ToErr(s1, it) EXCEPT !.arm = ""], Cat(ev, ArmedEv(it)))
       ELSE LET e1 == Cat(ev, StartEv(c, it)) IN
            IF c.slow \/ s1.auto = <<>> THEN [s |-> s1, ev |-> e1]
            ELSE LET o == Head(s1.auto)
                     s2 == FinishA(c, [s1 EXCEPT !.auto = Tail(s1.auto)], o)
                 IN Settle(c, s2, Cat(e1, FinishEv(c, it, o, s1.arm)))

(* ---- operations: [s |-> state before the worker reacts, st |-> response status (0 ok, 500 busy, *)
(*      -1 answered without effect), d |-> keys of returned request data, ks |-> listed keys, ev]  *)
Res(s, st, d, ks) == [s |-> s, st |-> st, d |-> d, ks |-> ks, ev |-> NoEv]
RECURSIVE AcceptAll(_, _, _)
AcceptAll(s, ks, ms) == IF ks = <<>> THEN s
  ELSE AcceptAll([s EXCEPT !.pend = PushQ(s.pend, [k |-> Head(ks), n |-> 0, m |-> Head(ms)])], Tail(ks), Tail(ms))
RECURSIVE MoveAll(_, _)
MoveAll(pend, err) == IF err = <<>> THEN pend ELSE MoveAll(PushQ(pend, [Head(err) EXCEPT !.n = 0]), Tail(err))

(* o: [n |-> name, k |-> key, o |-> outcome, m |-> metadata token, ks, ms |-> sequences for bursts] *)
Apply(c, s, o) ==
  LET has == o.k \in KeysOf(s.err) \ c.mis IN          \* what can not be shown is not taken away either
  CASE o.n = "accept"    -> IF c.kind = "ep" /\ s.rp THEN Res(s, 500, <<>>, <<>>)
                            ELSE Res([s EXCEPT !.pend = PushQ(s.pend, [k |-> o.k, n |-> 0, m |-> o.m])], 0, <<>>, <<>>)
    [] o.n = "burst"     -> IF c.kind = "ep" /\ s.rp THEN Res(s, 500, <<>>, <<>>)
                            ELSE Res(AcceptAll(s, o.ks, o.ms), 0, <<>>, <<>>)
    [] o.n = "hold"      -> IF s.rp THEN Res(s, 500, <<>>, <<>>) ELSE Res([s EXCEPT !.held = <<o.k>>, !.rpd = FALSE], 0, <<>>, <<>>)
    [] o.n = "let"       -> IF s.rpd /\ o.st = 500 THEN Res([s EXCEPT !.held = <<>>], 500, <<>>, <<>>)
                            ELSE Res([s EXCEPT !.held = <<>>, !.pend = PushQ(s.pend, [k |-> o.k, n |-> 0, m |-> o.m])], 0, <<>>, <<>>)
    [] o.n = "nop"       -> Res(s, 0, <<>>, <<>>)
    [] o.n = "release"   -> IF s.inf = <<>> \/ c.slow THEN Res(s, 0, <<>>, <<>>)
                            ELSE [Res(FinishA(c, s, o.o), 0, <<>>, <<>>) EXCEPT !.ev = FinishEv(c, s.inf[1], o.o, s.arm)]
    [] o.n = "auto"      -> Res([s EXCEPT !.auto = s.auto \o o.ks], 0, <<>>, <<>>)
    [] o.n = "arm"       -> Res([s EXCEPT !.arm = o.o], 0, <<>>, <<>>)
    [] o.n = "rpause"    -> Res([s EXCEPT !.rp = TRUE, !.rpd = s.held # <<>>], 0, <<>>, <<>>)
    [] o.n = "runpause"  -> Res([s EXCEPT !.rp = FALSE], 0, <<>>, <<>>)
    [] o.n = "ppause"    -> Res([s EXCEPT !.pp = TRUE], 0, <<>>, <<>>)
    [] o.n = "punpause"  -> Res([s EXCEPT !.pp = FALSE], 0, <<>>, <<>>)
    [] o.n = "apause"    -> Res([s EXCEPT !.rp = TRUE, !.pp = TRUE, !.rpd = s.held # <<>>], 0, <<>>, <<>>)
    [] o.n = "aunpause"  -> Res([s EXCEPT !.rp = FALSE, !.pp = FALSE], 0, <<>>, <<>>)
    [] o.n = "data"      -> Res(s, 0, <<>>, <<>>)
    [] o.n = "first10"   -> Res(s, 0, <<>>, FirstKeys(s.err, 10))
    [] o.n = "inspect"   -> IF has THEN Res(s, 0, <<o.k>>, <<>>) ELSE Res(s, -1, <<>>, <<>>)
    [] o.n = "pop"       -> IF has THEN Res([s EXCEPT !.err = WithoutKey(s.err, o.k)], 0, <<o.k>>, <<>>)
                            ELSE Res(s, -1, <<>>, <<>>)
    [] o.n = "repone"    -> IF has THEN Res([s EXCEPT !.err = WithoutKey(s.err, o.k),
                                                      !.pend = PushQ(s.pend, [ItemOf(s.err, o.k) EXCEPT !.n = 0])], 0, <<o.k>>, <<>>)
                            ELSE Res(s, -1, <<>>, <<>>)
    [] o.n = "repall"    -> Res([s EXCEPT !.err = <<>>, !.pend = MoveAll(s.pend, s.err)], 0, <<>>, <<>>)
    [] o.n = "clear"     -> Res([s EXCEPT !.err = <<>>], 0, <<>>, <<>>)
=============================================================================
