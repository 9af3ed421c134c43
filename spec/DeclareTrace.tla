----------------------------- MODULE DeclareTrace -----------------------------
(* Declarations and calls of a real application.                                                       *)
(* reset; decl [r, kind, f, ps, need, ty, ok, dir |-> what calling the function itself gave];             *)
(* sdecl [s, r, kind, sty, rty]; call [s, a |-> fields handed over, k |-> key given or 0,                 *)
(*   fn |-> calls of the sender's function [a, k], mw |-> arrivals [r, k, d], h |-> runs of endpoint        *)
(*   functions [f, ps, ty, fl, k, x], o |-> outcome, ty / fl / rk |-> what the caller got]                    *)
EXTENDS DeclareOps, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, table, snd, used, bad
tv == <<l, table, snd, used, bad>>
B(e, c, w, g) == [clause |-> c, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
Set(q) == {q[j] : j \in DOMAIN q}
If(ok, b) == IF ok THEN {} ELSE {b}
Sig(e) == [ps |-> Set(e.ps), need |-> Set(e.need), ty |-> e.ty, kind |-> e.kind, f |-> e.f, rty |-> e.rty]
(* the sentinel field "_" keeps empty records apart from sequences *)
Rec(x) == [f \in DOMAIN x \ {"_"} |-> x[f]]
Decl(e) == If(e.ok = ~Taken(table, e.r), B(e, "declare.taken", ~Taken(table, e.r), e.ok))
           \cup If(~e.ok \/ e.dir = 10 * e.f, B(e, "declare.function", 10 * e.f, e.dir))
Call(e) ==
  LET s == snd[ToString(e.s)]
      d == Cast(s.sty, Rec(e.a))
      t == table[s.r]
      known == Taken(table, s.r)
      o == Outcome(table, s.r, d)
      buf == s.kind = "bsend"
      k == IF known /\ Len(e.mw) > 0 THEN e.mw[1].k ELSE 0
  IN
  If(Len(e.fn) = 1 /\ \A j \in DOMAIN e.fn : Rec(e.fn[j].a) = Rec(e.a) /\ e.fn[j].k = e.k, B(e, "sender.arguments", <<Rec(e.a), e.k>>, e.fn))
  \cup (IF ~known THEN {} ELSE
    If(Len(e.mw) = 1, B(e, "arrives.once", 1, Len(e.mw)))
    \cup If(\A j \in DOMAIN e.mw : e.mw[j].r = s.r /\ Rec(e.mw[j].d) = d, B(e, "arrives.data", <<s.r, d>>, e.mw))
    \cup If(Len(e.mw) = 0 \/ (IF e.k # 0 THEN k = e.k ELSE k \notin used), B(e, "arrives.key", IF e.k # 0 THEN <<e.k>> ELSE <<"fresh">>, k)))
  \cup If(Len(e.h) = Runs(table, s.r, d), B(e, "runs.once", Runs(table, s.r, d), Len(e.h)))
  \cup (IF ~known THEN {} ELSE UNION {LET h == e.h[j] IN
    If(h.f = t.f, B(e, "runs.function", t.f, h.f))
    \cup If(Set(h.ps) = Given(t), B(e, "runs.parameters", Given(t), h.ps))
    \cup If("dto" \notin Given(t) \/ (h.ty = t.ty /\ Rec(h.fl) = Cast(t.ty, d)), B(e, "runs.data", <<t.ty, Cast(t.ty, d)>>, <<h.ty, h.fl>>))
    \cup If("span_key" \notin Given(t) \/ h.k = k, B(e, "runs.key", k, h.k))
    \cup If(h.x = 5, B(e, "runs.default", 5, h.x)) : j \in DOMAIN e.h})
  \cup (IF buf THEN If(e.o = "none", B(e, "returns", "none", e.o))
        ELSE If(e.o = o, B(e, "outcome", o, e.o))
             \cup (IF o # "ok" \/ e.o # "ok" THEN {}
                   ELSE IF t.kind = "bep" THEN If(e.rk = k, B(e, "returns.key", k, e.rk))
                   ELSE LET w == Cast(s.rty, Cast(t.rty, [id |-> IF "dto" \in Given(t) /\ "id" \in Fields(t.ty) THEN d["id"] ELSE 0, a |-> 10 * t.f, b |-> 5])) IN
                        If(e.ty = s.rty /\ Rec(e.fl) = w, B(e, "returns.data", <<s.rty, w>>, <<e.ty, e.fl>>))))
Step == LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> table' = [x \in {} |-> 0] /\ snd' = [x \in {} |-> 0] /\ used' = {} /\ bad' = bad
       [] e.ev = "decl"  -> table' = Declare(table, e.r, Sig(e)) /\ bad' = bad \cup Decl(e) /\ UNCHANGED <<snd, used>>
       [] e.ev = "sdecl" -> snd' = [x \in DOMAIN snd \cup {ToString(e.s)} |-> IF x = ToString(e.s) THEN e ELSE snd[x]] /\ UNCHANGED <<table, used, bad>>
       [] e.ev = "dead"  -> bad' = bad \cup {B(e, "dead", "runs", e.why)} /\ UNCHANGED <<table, snd, used>>
       [] e.ev = "call"  -> bad' = bad \cup Call(e) /\ used' = used \cup {e.mw[j].k : j \in DOMAIN e.mw} \cup {e.k} /\ UNCHANGED <<table, snd>>
TInit == l = 1 /\ table = [x \in {} |-> 0] /\ snd = [x \in {} |-> 0] /\ used = {} /\ bad = {}
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
