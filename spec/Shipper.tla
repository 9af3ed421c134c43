------------------------------- MODULE Shipper -------------------------------
(* The log shipper (ekosis_log_shipper/src): a writer appends numbered lines to the log file and rotates it the way     *)
(* logging.handlers.RotatingFileHandler does (renames from the oldest to the newest name, then a new file), one rename  *)
(* at a time; the shipper looks for the files since the one it is at, one name at a time, reads them, posts what it     *)
(* read, and saves its position. It can be killed between any two steps, and every post can fail before or after the    *)
(* endpoint has it. A file has an inode, which is reused once the file is gone, and a time of creation, which is not.   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Lines, Files, Keep, Kills, Fails,  \* bounds: lines, files, rotated files kept, kills, failed posts
          Chain,        \* TRUE: the files between the old and the current one are read as well
          SaveFirst,    \* TRUE: the position is saved when a file is first seen
          Created,      \* TRUE: a file is recognised by inode and time of creation, FALSE: by inode
          SaveLate      \* TRUE: the position is saved after the post was acknowledged, FALSE: before it is posted
NoFile == 0
VARIABLES
  name,      \* 0..Keep -> file at log, log.1, log.2 ... (NoFile: none)
  lines,     \* file -> number of the last complete line in it; its first is first[file]
  first,     \* file -> number of its first line
  inode,     \* file -> inode
  made,      \* files made so far (a file is its time of creation)
  rot,       \* rotation in progress: next name to rename (Keep..0), Keep + 1: none
  n,         \* lines written
  pc, cur, pos,        \* the shipper: where it is, file it has open, lines up to pos of all were read
  scan, found, gaps,   \* names looked at, files found (newest first), missing names in a row
  und, sfile, spos,    \* lines read and not acknowledged; saved file and position
  got,       \* what the endpoint received
  kills, fails
vars == <<name, lines, first, inode, made, rot, n, pc, cur, pos, scan, found, gaps, und, sfile, spos, got, kills, fails>>
disk == <<name, lines, first, inode, made, rot, n>>
F == 1..Files
OnDisk(nm) == {nm[k] : k \in 0..Keep} \ {NoFile}
(* a file that is open keeps its inode *)
FreeInode(nm) == CHOOSE i \in 1..Files : i \notin {inode[f] : f \in OnDisk(nm) \cup (IF pc # "down" THEN {cur} \cup {found[k] : k \in 1..Len(found)} ELSE {})}
                                         /\ \A j \in 1..(i - 1) : j \in {inode[f] : f \in OnDisk(nm) \cup (IF pc # "down" THEN {cur} \cup {found[k] : k \in 1..Len(found)} ELSE {})}
Init == /\ name = [k \in 0..Keep |-> IF k = 0 THEN 1 ELSE NoFile] /\ made = 1
        /\ lines = [f \in F \cup {NoFile} |-> 0] /\ first = [f \in F \cup {NoFile} |-> 1] /\ inode = [f \in F \cup {NoFile} |-> IF f = NoFile THEN 0 ELSE 1]
        /\ rot = Keep + 1 /\ n = 0
        /\ pc = "down" /\ cur = NoFile /\ pos = 0 /\ scan = 0 /\ found = <<>> /\ gaps = 0 /\ und = <<>>
        /\ sfile = NoFile /\ spos = 0 /\ got = <<>> /\ kills = 0 /\ fails = 0
(* ---------------------------------------------------------------- the application *)
Append1 == /\ n < Lines /\ rot = Keep + 1 /\ n' = n + 1 /\ lines' = [lines EXCEPT ![name[0]] = n + 1]
          /\ UNCHANGED <<name, first, inode, made, rot, pc, cur, pos, scan, found, gaps, und, sfile, spos, got, kills, fails>>
Rotate == /\ rot = Keep + 1 /\ made < Files /\ rot' = Keep - 1
          /\ UNCHANGED <<name, lines, first, inode, made, n, pc, cur, pos, scan, found, gaps, und, sfile, spos, got, kills, fails>>
(* rename log.k to log.(k+1), replacing it *)
Rename == /\ rot <= Keep - 1 /\ rot >= 0
          /\ name' = IF name[rot] = NoFile THEN name ELSE [name EXCEPT ![rot + 1] = name[rot], ![rot] = NoFile]
          /\ IF rot = 0
             THEN /\ rot' = Keep + 2 /\ UNCHANGED <<lines, first, inode, made>>
             ELSE rot' = rot - 1 /\ UNCHANGED <<lines, first, inode, made>>
          /\ UNCHANGED <<n, pc, cur, pos, scan, found, gaps, und, sfile, spos, got, kills, fails>>
Create == /\ rot = Keep + 2 /\ rot' = Keep + 1
          /\ made' = made + 1 /\ name' = [name EXCEPT ![0] = made + 1]
          /\ first' = [first EXCEPT ![made + 1] = n + 1] /\ lines' = [lines EXCEPT ![made + 1] = n]
          /\ inode' = [inode EXCEPT ![made + 1] = FreeInode(name)]
          /\ UNCHANGED <<n, pc, cur, pos, scan, found, gaps, und, sfile, spos, got, kills, fails>>
App == Append1 \/ Rotate \/ Rename \/ Create
(* ---------------------------------------------------------------- the shipper *)
Same(f, g) == IF Created THEN f = g ELSE inode[f] = inode[g]
Start == /\ pc = "down" /\ UNCHANGED <<disk, got, kills, fails, und, sfile, spos, cur, pos>>
         /\ IF sfile = NoFile
            THEN name[0] # NoFile /\ pc' = "attach" /\ UNCHANGED <<scan, found, gaps>>
            ELSE pc' = "resume" /\ scan' = 0 /\ found' = <<>> /\ gaps' = 0
Attach == /\ pc = "attach" /\ UNCHANGED <<disk, got, kills, fails, und, scan, found, gaps>>
          /\ IF name[0] = NoFile THEN UNCHANGED <<pc, cur, pos, sfile, spos>>
             ELSE /\ cur' = name[0] /\ pos' = first[name[0]] - 1 /\ pc' = "poll"
                  /\ IF SaveFirst THEN sfile' = cur' /\ spos' = pos' ELSE UNCHANGED <<sfile, spos>>
Drop(s, f) == LET k == IF \E j \in 1..Len(s) : s[j] = f THEN CHOOSE j \in 1..Len(s) : s[j] = f ELSE Len(s) + 1 IN SubSeq(s, 1, k - 1)
MaxGaps == 2
Look(target, next) ==        \* one more name
  IF scan > Keep \/ gaps > MaxGaps THEN pc' = next /\ UNCHANGED <<scan, found, gaps>>
  ELSE LET f == name[scan] IN
       IF f = NoFile THEN gaps' = gaps + 1 /\ scan' = scan + 1 /\ UNCHANGED <<found, pc>>
       ELSE /\ gaps' = 0 /\ scan' = scan + 1 /\ found' = Append(Drop(found, f), f)
            /\ IF Same(f, target) THEN pc' = next ELSE UNCHANGED pc
Resume == /\ pc = "resume" /\ Look(sfile, "resumed") /\ UNCHANGED <<disk, got, kills, fails, und, sfile, spos, cur, pos>>
(* position of the saved one in the file that is taken for it: an offset, here the number of lines *)
Resumed == /\ pc = "resumed" /\ UNCHANGED <<disk, got, kills, fails, und, sfile, spos, scan, gaps>>
           /\ IF found = <<>> THEN pc' = "down" /\ UNCHANGED <<cur, pos, found>>
              ELSE LET f == IF Chain THEN found[Len(found)] ELSE found[1] IN
                   /\ cur' = f /\ pos' = first[f] - 1 + (IF Same(f, sfile) THEN spos - first[sfile] + 1 ELSE 0) /\ pc' = "poll" /\ found' = <<>>
Poll == /\ pc = "poll" /\ UNCHANGED <<disk, got, kills, fails, cur, sfile, spos>>
        /\ IF und # <<>> THEN pc' = "post" /\ UNCHANGED <<pos, und, scan, found, gaps>>
           ELSE IF name[0] # NoFile /\ name[0] # cur
                THEN pc' = "scan" /\ scan' = 0 /\ found' = <<>> /\ gaps' = 0 /\ UNCHANGED <<pos, und>>
                ELSE /\ und' = [k \in 1..(IF lines[cur] > pos THEN lines[cur] - pos ELSE 0) |-> pos + k]
                     /\ pos' = IF lines[cur] > pos THEN lines[cur] ELSE pos
                     /\ pc' = (IF und' = <<>> THEN "poll" ELSE "post") /\ UNCHANGED <<scan, found, gaps>>
Scan == /\ pc = "scan" /\ Look(cur, "drain") /\ UNCHANGED <<disk, got, kills, fails, und, sfile, spos, cur, pos>>
RECURSIVE Rest(_)
Rest(s) == IF s = <<>> THEN <<>>      \* oldest first, from the end
           ELSE LET f == s[Len(s)] IN (IF f = cur THEN <<>> ELSE [k \in 1..(IF lines[f] >= first[f] THEN lines[f] - first[f] + 1 ELSE 0) |-> first[f] + k - 1])
                                      \o Rest(SubSeq(s, 1, Len(s) - 1))
Drain == /\ pc = "drain" /\ UNCHANGED <<disk, got, kills, fails, sfile, spos, scan, gaps>>
         /\ LET s == IF Chain \/ found = <<>> THEN found ELSE <<found[1]>> IN
            /\ und' = [k \in 1..(IF lines[cur] > pos THEN lines[cur] - pos ELSE 0) |-> pos + k] \o Rest(s)
            /\ cur' = (IF s = <<>> THEN cur ELSE s[1])
            /\ pos' = (IF s = <<>> THEN (IF lines[cur] > pos THEN lines[cur] ELSE pos) ELSE IF s[1] = cur THEN (IF lines[cur] > pos THEN lines[cur] ELSE pos) ELSE lines[s[1]])
            /\ found' = <<>> /\ pc' = IF und' = <<>> THEN "poll" ELSE "post"
Early == IF SaveLate THEN UNCHANGED <<sfile, spos>> ELSE sfile' = cur /\ spos' = pos
PostOk   == pc = "post" /\ got' = got \o und /\ pc' = "save" /\ Early /\ UNCHANGED <<disk, cur, pos, scan, found, gaps, und, kills, fails>>
PostLost == pc = "post" /\ fails < Fails /\ fails' = fails + 1 /\ got' = got \o und /\ pc' = "poll" /\ Early /\ UNCHANGED <<disk, cur, pos, scan, found, gaps, und, kills>>
PostFail == pc = "post" /\ fails < Fails /\ fails' = fails + 1 /\ pc' = "poll" /\ Early /\ UNCHANGED <<disk, cur, pos, scan, found, gaps, und, kills, got>>
Save == pc = "save" /\ sfile' = cur /\ spos' = pos /\ und' = <<>> /\ pc' = "poll" /\ UNCHANGED <<disk, cur, pos, scan, found, gaps, got, kills, fails>>
Kill == pc # "down" /\ kills < Kills /\ kills' = kills + 1 /\ pc' = "down" /\ cur' = NoFile /\ pos' = 0 /\ und' = <<>> /\ scan' = 0 /\ found' = <<>> /\ gaps' = 0
        /\ UNCHANGED <<disk, sfile, spos, got, fails>>
Ship == Start \/ Attach \/ Resume \/ Resumed \/ Poll \/ Scan \/ Drain \/ PostOk \/ Save
Next == App \/ Ship \/ PostLost \/ PostFail \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Ship) /\ WF_vars(Rename \/ Create)
(* ---------------------------------------------------------------- properties *)
Seen == pc = "down" /\ sfile = NoFile            \* no file watched yet
LinesOf(f) == {k \in 1..Lines : k >= first[f] /\ k <= lines[f]}
Watched == {f \in OnDisk(name) : SaveFirst => (sfile # NoFile /\ f >= sfile)}
Reachable == UNION {LinesOf(f) : f \in OnDisk(name) \cup (IF pc # "down" /\ cur # NoFile THEN {cur} ELSE {})} \cup {und[k] : k \in 1..Len(und)}
GotSet == {got[k] : k \in 1..Len(got)}
(* nothing is passed over: a line is not received while an earlier one of a file that still exists was not. Lines of   *)
(* files that were rotated away before the shipper first saw the log are none of its business.                         *)
Base == IF sfile = NoFile THEN Lines + 1 ELSE first[sfile]
VARIABLE start                    \* first line of the file that was first watched
InOrder == \A i \in 1..Len(got) : \A k \in 1..Lines : (k >= start /\ k < got[i]) => (k \notin Reachable \/ \E j \in 1..(i - 1) : got[j] = k)
Consecutive == \A i \in 1..(Len(got) - 1) : got[i + 1] > got[i] => \A k \in (got[i] + 1)..(got[i + 1] - 1) : (k \notin Reachable)
Once == (kills = 0 /\ fails = 0) => \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
NotBefore == \A i \in 1..Len(got) : got[i] <= n
Delivered == []<>(\A k \in 1..n : k < start \/ k \notin Reachable \/ k \in GotSet)
(* the moment a file is first watched *)
SInit == Init /\ start = Lines + 1
SNext == Next /\ start' = IF start = Lines + 1 /\ pc = "attach" /\ pc' = "poll" THEN first[name[0]] ELSE start
SSpec == SInit /\ [][SNext]_<<vars, start>> /\ WF_<<vars, start>>(Ship /\ SNext) /\ WF_<<vars, start>>((Rename \/ Create) /\ SNext)
=============================================================================
