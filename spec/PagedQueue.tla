----------------------------- MODULE PagedQueue -----------------------------
(* ekosis/queues/paginated_queue.py: front page and back page in RAM, the middle in the database.   *)
(* Every public call is one action (single-threaded event loop, no await inside a call).            *)
EXTENDS AbsQueue, TLC, FiniteSets
CONSTANTS PSs,       \* page sizes a process may be started with
          PS0,       \* page size of the first process
          MaxKey     \* keys 1..MaxKey (value = key)
VARIABLES front, db, back,   \* sequences of [k, v]
          same,              \* back page is the front page object
          PS,                \* page size of the running process
          op                 \* last operation, <<name, arg>>; labels the graph
vars == <<front, db, back, same, PS, op>>

Abs == IF same THEN front \o db ELSE front \o db \o back
It(k) == [k |-> k, v |-> k]

(* opening a file that holds s *)
OpenFront(s, p) == SubSeq(s, 1, Min2(p, Len(s)))
OpenRest(s, p)  == SubSeq(s, Min2(p, Len(s)) + 1, Len(s))
OpenBack(s, p)  == LET r == OpenRest(s, p) IN SubSeq(r, Max2(0, Len(r) - p) + 1, Len(r))
OpenDb(s, p)    == LET r == OpenRest(s, p) IN SubSeq(r, 1, Max2(0, Len(r) - p))
Open(s, p) == /\ PS'    = p
              /\ front' = OpenFront(s, p)
              /\ db'    = OpenDb(s, p)
              /\ IF OpenRest(s, p) = <<>> THEN same' = TRUE /\ back' = <<>>
                                          ELSE same' = FALSE /\ back' = OpenBack(s, p)

Init == front = <<>> /\ db = <<>> /\ back = <<>> /\ same = TRUE /\ PS = PS0 /\ op = <<"init", 0>>

Push(k) ==
  /\ op' = <<"push", k>>
  /\ IF QHas(Abs, k) THEN UNCHANGED <<front, db, back, same>>
     ELSE IF same THEN
       IF Len(front) < PS THEN front' = Append(front, It(k)) /\ UNCHANGED <<db, back, same>>
       ELSE back' = <<It(k)>> /\ same' = FALSE /\ UNCHANGED <<front, db>>
     ELSE
       IF Len(back) < PS THEN back' = Append(back, It(k)) /\ UNCHANGED <<front, db, same>>
       ELSE db' = db \o back /\ back' = <<It(k)>> /\ UNCHANGED <<front, same>>

Pop ==
  /\ op' = <<"pop", 0>>
  /\ IF front # <<>> THEN front' = Tail(front) /\ UNCHANGED <<db, back, same>>
     ELSE IF db # <<>> THEN
       /\ front' = Tail(SubSeq(db, 1, Min2(PS, Len(db))))
       /\ db'    = SubSeq(db, Min2(PS, Len(db)) + 1, Len(db))
       /\ UNCHANGED <<back, same>>
     ELSE IF ~same /\ back # <<>> THEN
       front' = Tail(back) /\ back' = <<>> /\ same' = TRUE /\ UNCHANGED db
     ELSE front' = <<>> /\ back' = <<>> /\ same' = TRUE /\ UNCHANGED db

PopKey(k) ==
  /\ op' = <<"popk", k>>
  /\ front' = QRemove(front, k) /\ db' = QRemove(db, k) /\ back' = QRemove(back, k)
  /\ UNCHANGED same

Clear   == op' = <<"clear", 0>> /\ front' = <<>> /\ db' = <<>> /\ back' = <<>> /\ same' = TRUE
Restart(p) == op' = <<"restart", p>> /\ Open(Abs, p)
Crash(p)   == op' = <<"crash", p>>   /\ Open(db, p)          \* only what is in the database survives

Unused == { k \in 1..MaxKey : ~QHas(Abs, k) }
Call == \/ /\ Unused # {}
           /\ Push(CHOOSE k \in Unused : \A j \in Unused : k <= j)   \* canonical fresh key
        \/ \E k \in 1..MaxKey : QHas(Abs, k) /\ (Push(k) \/ PopKey(k))
        \/ Pop \/ Clear
Next == \/ Call /\ UNCHANGED PS
        \/ \E p \in PSs : Restart(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars

TypeOK  == Len(front) <= PS /\ Len(back) <= PS /\ (same => db = <<>> /\ back = <<>>)
Unique  == QUnique(Abs)
(* refinement: every step is the abstract operation; a crash keeps a run of the middle *)
RefStep == \/ /\ op'[1] \notin {"crash", "init"}
              /\ Abs' = QApply(Abs, [n |-> op'[1], k |-> op'[2], v |-> op'[2]]).q
           \/ /\ op'[1] = "crash"
              /\ Abs' \in CrashSurvivors(Abs, PS)
Refines == [][RefStep]_vars
(* the value handed out by a pop is the abstract head *)
PopHead == [][(op'[1] = "pop" /\ Abs # <<>>) => (Abs' = Tail(Abs))]_vars
=============================================================================
