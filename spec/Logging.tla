------------------------------ MODULE Logging --------------------------------
(* The log of one application: records, levels, the buffer, and the set of rotated files.            *)
(* Every record takes one unit of space; a file holds MaxSize units, MaxFiles backups are kept.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxSize, MaxFiles, MaxRec, Caps, Levels, DropOnShrink
VARIABLES level, cap, buf, files, hist, op        \* files[1] is the newest; hist: all enabled records so far
vars == <<level, cap, buf, files, hist, op>>
RECURSIVE Flat(_)
Flat(f) == IF f = <<>> THEN <<>> ELSE Flat(Tail(f)) \o f[1]        \* oldest first
Put(f, r) == IF Len(f[1]) + 1 > MaxSize
             THEN SubSeq(<<<<r>>>> \o f, 1, IF Len(f) + 1 > MaxFiles + 1 THEN MaxFiles + 1 ELSE Len(f) + 1)
             ELSE <<Append(f[1], r)>> \o Tail(f)
RECURSIVE Write(_, _)
Write(f, b) == IF b = <<>> THEN f ELSE Write(Put(f, Head(b)), Tail(b))
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
Init == level = Least(Levels) /\ cap = Least(Caps) /\ buf = <<>> /\ files = <<<<>>>> /\ hist = <<>> /\ op = <<"init", level, cap>>
Log(v) == /\ Len(hist) < MaxRec /\ op' = <<"log", v, 0>>
          /\ IF v < level THEN UNCHANGED <<buf, files, hist>>
             ELSE LET r == Len(hist) + 1 b == Append(buf, r) IN
                  /\ hist' = Append(hist, r)
                  /\ IF Len(b) >= cap THEN buf' = <<>> /\ files' = Write(files, b) ELSE buf' = b /\ files' = files
          /\ UNCHANGED <<level, cap>>
Flush == buf' = <<>> /\ files' = Write(files, buf) /\ op' = <<"flush", 0, 0>> /\ UNCHANGED <<level, cap, hist>>
SetLevel(v) == level' = v /\ op' = <<"level", v, 0>> /\ UNCHANGED <<cap, buf, files, hist>>
SetCap(c) == cap' = c /\ op' = <<"cap", c, 0>> /\ buf' = (IF DropOnShrink /\ c < cap THEN <<>> ELSE buf) /\ UNCHANGED <<level, files, hist>>
Next == (\E v \in Levels : Log(v) \/ SetLevel(v)) \/ (\E c \in Caps : SetCap(c)) \/ Flush
Spec == Init /\ [][Next]_vars
Written == Flat(files)
(* what is on disk is a contiguous part of the history, complete at its end but for the buffer,      *)
(* and at its beginning unless all backups are in use                                                *)
Complete == LET n == Len(hist) - Len(buf) m == Len(Written) IN
            /\ Written = SubSeq(hist, n - m + 1, n)
            /\ buf = SubSeq(hist, n + 1, Len(hist))
            /\ (Len(files) < MaxFiles + 1) => m = n
Bounded == Len(files) <= MaxFiles + 1 /\ \A i \in DOMAIN files : Len(files[i]) <= MaxSize
=============================================================================
