------------------------------ MODULE CliSystem -------------------------------
(* Command lines at work on the queues of an application: what the documentation says each one does,  *)
(* against what the requests it is turned into do there (BufferedOps).                                *)
EXTENDS Cli, BufferedOps
CONSTANTS NK, Eps
VARIABLES S, last
Kinds == [e \in Eps |-> "ep"] @@ ("s.a" :> "snd")
Conf(q) == [kind |-> Kinds[q], maxr |-> 0, slow |-> FALSE, mis |-> {}]
It(k) == [k |-> k, n |-> 0, m |-> 0]
Key(t) == CHOOSE k \in 1..NK : ToString(k) = t
OpName == ("data" :> "data") @@ ("receiving.pause" :> "rpause") @@ ("receiving.unpause" :> "runpause") @@ ("processing.pause" :> "ppause")
  @@ ("processing.unpause" :> "punpause") @@ ("send_process.pause" :> "ppause") @@ ("send_process.unpause" :> "punpause")
  @@ ("all.pause" :> "apause") @@ ("all.unpause" :> "aunpause") @@ ("errors.get_first_10" :> "first10") @@ ("errors.reprocess.one" :> "repone")
  @@ ("errors.reprocess.all" :> "repall") @@ ("errors.inspect_request" :> "inspect") @@ ("errors.pop_request" :> "pop") @@ ("errors.clear" :> "clear")
Suffix(c, r) == CHOOSE x \in DOMAIN OpName : Prefix(c) \o x = r.route
Exec(c, s) == LET r == Requests(c) IN
  IF r = <<>> \/ c.rk \notin DOMAIN Kinds \/ Kinds[c.rk] # (IF c.tool = "bem" THEN "ep" ELSE "snd") THEN s
  ELSE [s EXCEPT ![c.rk] = Apply(Conf(c.rk), @, [n |-> OpName[Suffix(c, r[1])], k |-> IF r[1].sk = "" THEN 1 ELSE Key(r[1].sk), o |-> "", m |-> 0, ks |-> <<>>, ms |-> <<>>]).s]
FlagSet == DOMAIN EpOp \cup DOMAIN SndOp
Lines == [tool : {"bem", "bsm"}, st : {"tcp"}, sd : {"ok"}, rk : DOMAIN Kinds \cup {"nope", ""},
          flags : {<<>>} \cup {<<f>> : f \in FlagSet} \cup {<<"pr", "clr">>, <<"e10", "rpa">>}, sk : {"", "bad"} \cup {ToString(k) : k \in 1..NK}]
View == S
None == [tool |-> "", rk |-> "", flags |-> <<>>, sk |-> ""]
Init == /\ S \in [DOMAIN Kinds -> {[Fresh EXCEPT !.err = e] : e \in {<<>>, <<It(1)>>, <<It(1), It(2)>>}}]
        /\ last = None
Run(c) == /\ S' = Exec(c, S) /\ last' = [tool |-> c.tool, rk |-> c.rk, flags |-> c.flags, sk |-> c.sk]
Next == \E c \in Lines : Run(c)
Spec == Init /\ [][Next]_<<S, last>>
Small == \A q \in DOMAIN S : Len(S[q].pend) + Len(S[q].err) <= NK
(* one command, one queue *)
OneQueue == [][\A q \in DOMAIN S : q # last'.rk => S'[q] = S[q]]_<<S, last>>
F(x) == last'.flags = <<x>>
Doc == [][\A q \in DOMAIN S : S'[q] # S[q] =>
   LET s == S[q]
       t == S'[q]
       b(on) == [s EXCEPT !.rp = on, !.pp = on]
   IN
   /\ (F("pr") => t = [s EXCEPT !.rp = TRUE])
   /\ (F("ur") => t = [s EXCEPT !.rp = FALSE])
   /\ (F("pp") \/ F("ps") => t = [s EXCEPT !.pp = TRUE])
   /\ (F("up") \/ F("us") => t = [s EXCEPT !.pp = FALSE])
   /\ (F("pa") => t = b(TRUE))
   /\ (F("ua") => t = b(FALSE))
   /\ (F("clr") => t = [s EXCEPT !.err = <<>>])
   /\ (F("pop") => t = [s EXCEPT !.err = WithoutKey(s.err, Key(last'.sk))])
   /\ (F("rp1") => KeysOf(t.err) = KeysOf(s.err) \ {Key(last'.sk)} /\ Key(last'.sk) \in KeysOf(t.pend))
   /\ (F("rpa") => t.err = <<>> /\ KeysOf(t.pend) = KeysOf(s.pend) \cup KeysOf(s.err))
   /\ last'.flags \notin {<<>>, <<"e10">>, <<"ins">>} /\ Len(last'.flags) = 1]_<<S, last>>
=============================================================================
