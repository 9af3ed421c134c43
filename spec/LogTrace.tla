------------------------------ MODULE LogTrace --------------------------------
(* Monitor of real log files. A look shows files oldest first, each a sequence of <<record, level>>.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, level, cap, lim, hist, e0, skip, bad      \* e0: so many are written for sure; lim: so many may be held back
tv == <<l, c, level, cap, lim, hist, e0, skip, bad>>
B(e, cl, w, g) == [clause |-> cl, t |-> e.t, i |-> e.i, want |-> ToString(w), got |-> ToString(g)]
RECURSIVE Cat(_)
Cat(f) == IF f = <<>> THEN <<>> ELSE Head(f) \o Cat(Tail(f))
Min(a, b) == IF a < b THEN a ELSE b
(* the end of the part of the history that is on disk: one past it is unwritten *)
Fits(w, s) == s + Len(w) <= Len(hist) /\ \A i \in DOMAIN w : hist[s + i] = w[i]
Starts(w) == {s \in 0..Len(hist) : Fits(w, s)}
Rec(r) == <<r[1], r[2]>>
Look(e) ==
  LET w == Cat(e.files)
      ss == Starts(w)
      complete == Len(e.files) < c.maxf + 1 \/ c.maxb = 0 \/ c.maxf = 0          \* no backup was ever dropped
      fit == {s \in ss : (complete => s = 0) /\ s + Len(w) >= e0 /\ Len(hist) - (s + Len(w)) <= lim} IN
  IF e.junk # <<>> THEN {B(e, "line", "one JSON record per line", e.junk)}
  ELSE IF Len(e.files) > c.maxf + 1 THEN {B(e, "files", c.maxf + 1, Len(e.files))}
  ELSE IF e.big # <<>> THEN {B(e, "size", c.maxb, e.big)}
  ELSE IF ss = {} THEN {B(e, "records", hist, e.files)}
  ELSE IF fit = {} THEN {B(e, "lost", hist, e.files)}
  ELSE IF c.console = 1 /\ e.cons # hist THEN {B(e, "console", hist, e.cons)}
  ELSE IF e.when = 0 THEN {B(e, "timestamp", "time of the record", e.files)}
  ELSE {}
(* records of several threads: each thread's records once and in its order *)
Burst(e) ==
  LET w == Cat(e.files)
      want == {x \in DOMAIN e.recs : e.recs[x][2] >= level}
      of(q, th) == SelectSeq(q, LAMBDA r : r[1] \div 1000 = th)
      mine(th) == SelectSeq(e.recs, LAMBDA r : r[1] \div 1000 = th /\ r[2] >= level)
      b == {th \in 1..e.nth : of(w, th) # mine(th)} IN
  IF e.junk # <<>> THEN {B(e, "line", "one JSON record per line", e.junk)}
  ELSE IF b # {} THEN {B(e, "threads", [th \in b |-> mine(th)], [th \in b |-> of(w, th)])} ELSE {}
TInit == l = 1 /\ c = <<>> /\ level = 0 /\ cap = 0 /\ lim = 0 /\ hist = <<>> /\ e0 = 0 /\ skip = FALSE /\ bad = {}
Step ==
  LET e == Trace[l] IN
  /\ l' = l + 1
  /\ CASE e.ev = "reset" -> c' = e /\ level' = e.level /\ cap' = e.cap /\ lim' = 0 /\ hist' = <<>> /\ e0' = 0 /\ skip' = FALSE /\ bad' = bad
       [] e.ev # "reset" /\ skip -> UNCHANGED <<c, level, cap, lim, hist, e0, skip, bad>>
       [] e.ev = "log" /\ ~skip -> hist' = (IF e.v >= level THEN Append(hist, <<e.id, e.v>>) ELSE hist)
              /\ lim' = (IF e.v >= level THEN (IF cap <= 1 THEN 0 ELSE cap - 1) ELSE lim) /\ UNCHANGED <<c, level, cap, e0, skip, bad>>
       [] e.ev = "level" /\ ~skip -> level' = e.v /\ UNCHANGED <<c, cap, lim, hist, e0, skip, bad>>
       [] e.ev = "cap" /\ ~skip -> cap' = e.v /\ lim' = 1000000 /\ UNCHANGED <<c, level, hist, e0, skip, bad>>
       [] e.ev = "flush" /\ ~skip -> e0' = Len(hist) /\ UNCHANGED <<c, level, cap, lim, hist, skip, bad>>
       [] e.ev = "look" /\ ~skip -> LET b == Look(e) IN bad' = bad \cup b /\ skip' = (b # {}) /\ UNCHANGED <<c, level, cap, lim, hist, e0>>
       [] e.ev = "burst" /\ ~skip -> LET b == Burst(e) IN bad' = bad \cup b /\ skip' = TRUE /\ UNCHANGED <<c, level, cap, lim, hist, e0>>
       [] OTHER -> UNCHANGED <<c, level, cap, lim, hist, e0, skip, bad>>
TNext == l <= Len(Trace) /\ Step
TraceSpec == TInit /\ [][TNext]_tv
Report == (l > Len(Trace)) => PrintT(<<"VERDICT", l - 1, ToJson(bad)>>)
=============================================================================
