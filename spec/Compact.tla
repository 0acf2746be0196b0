------------------------------ MODULE Compact ------------------------------
(* Rewriting a table file next to itself and putting the copy in its place, *)
(* over storage that may fail at any operation and a process that may die   *)
(* at any moment (property P09).                                            *)
(* A file is a record of what the system shows (seen) and of what is sure   *)
(* to survive a loss of power (safe): "none", "part" (incomplete), "orig"   *)
(* (the table as it was) or "copy" (the complete duplicate).                *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, FileState

CONSTANTS Streams,   \* number of streams of the table
          Flaws      \* what a careless implementation does, {} for the real one:
                     \* "unlink", "swallow", "nosync", "samename", "early"

VARIABLES tbl, tmp,   \* the two files
          pc,         \* next step: "create", "write", "flush", "sync", "unlink", "rename", "end"
          cur,        \* the stream being copied
          held,       \* streams whose data is still in memory
          lost,       \* streams whose data was given up
          res,        \* "none", "ok", "err"
          life        \* "up", "dead" (process died), "dark" (power lost)
vars == <<tbl, tmp, pc, cur, held, lost, res, life>>

Init == /\ tbl = Orig /\ tmp = None /\ pc = "create" /\ cur = 1 /\ held = {} /\ lost = {} /\ res = "none" /\ life = "up"

Up == life = "up" /\ res = "none"
Give(r) == res' = r /\ pc' = "end"

Create == /\ Up /\ pc = "create"
          /\ IF "samename" \in Flaws THEN tbl' = [seen |-> "part", safe |-> "orig"] /\ tmp' = tmp
             ELSE tmp' = [seen |-> "part", safe |-> "none"] /\ tbl' = tbl
          /\ pc' = "write" /\ UNCHANGED <<cur, held, lost, res, life>>
\* the data of a stream goes into a buffer first
Write == /\ Up /\ pc = "write" /\ cur <= Streams
         /\ held' = held \cup {cur} /\ pc' = "flush" /\ UNCHANGED <<tbl, tmp, cur, lost, res, life>>
Flush == /\ Up /\ pc = "flush"
         /\ held' = held \ {cur} /\ cur' = cur + 1 /\ pc' = "write" /\ UNCHANGED <<tbl, tmp, lost, res, life>>
Done == /\ Up /\ pc = "write" /\ (cur > Streams \/ "early" \in Flaws)
        /\ IF "samename" \in Flaws
           THEN tbl' = [tbl EXCEPT !.seen = IF cur > Streams /\ held \cup lost = {} THEN "copy" ELSE "part"] /\ tmp' = tmp
           ELSE tmp' = [tmp EXCEPT !.seen = IF cur > Streams /\ held \cup lost = {} THEN "copy" ELSE "part"] /\ tbl' = tbl
        /\ pc' = IF "nosync" \in Flaws THEN "unlink" ELSE "sync"
        /\ UNCHANGED <<cur, held, lost, res, life>>
Sync == /\ Up /\ pc = "sync"
        /\ IF "samename" \in Flaws THEN tbl' = [tbl EXCEPT !.safe = tbl.seen] /\ tmp' = tmp
           ELSE tmp' = [tmp EXCEPT !.safe = tmp.seen] /\ tbl' = tbl
        /\ pc' = "unlink" /\ UNCHANGED <<cur, held, lost, res, life>>
Unlink == /\ Up /\ pc = "unlink"
          /\ tbl' = IF "unlink" \in Flaws THEN None ELSE tbl
          /\ pc' = "rename" /\ UNCHANGED <<tmp, cur, held, lost, res, life>>
Rename == /\ Up /\ pc = "rename"
          /\ IF "samename" \in Flaws THEN UNCHANGED <<tbl, tmp>> ELSE tbl' = tmp /\ tmp' = None
          /\ Give("ok") /\ UNCHANGED <<cur, held, lost, life>>

\* a storage operation fails: what was to happen does not happen
Fail == /\ Up /\ pc \in {"create", "write", "flush", "sync", "rename"} \cup (IF "unlink" \in Flaws THEN {"unlink"} ELSE {})
        /\ IF pc = "flush" /\ "swallow" \in Flaws
           THEN lost' = lost \cup {cur} /\ held' = held \ {cur} /\ cur' = cur + 1 /\ pc' = "write" /\ UNCHANGED res
           ELSE Give("err") /\ UNCHANGED <<cur, held, lost>>
        /\ UNCHANGED <<tbl, tmp, life>>
Crash == /\ Up /\ life' = "dead" /\ UNCHANGED <<tbl, tmp, pc, cur, held, lost, res>>
PowerLoss == /\ life = "up" /\ life' = "dark"
             /\ tbl' = [tbl EXCEPT !.seen = tbl.safe] /\ tmp' = [tmp EXCEPT !.seen = tmp.safe]
             /\ UNCHANGED <<pc, cur, held, lost, res>>

Next == Create \/ Write \/ Flush \/ Done \/ Sync \/ Unlink \/ Rename \/ Fail \/ Crash \/ PowerLoss
Spec == Init /\ [][Next]_vars /\ WF_vars(Create \/ Write \/ Flush \/ Done \/ Sync \/ Unlink \/ Rename)

-----------------------------------------------------------------------------
\* P09
NeverLost == Complete(tbl.seen)
Honest == /\ res = "ok" /\ life = "up" => tbl.seen = "copy" /\ tmp.seen = "none"
          /\ res = "err" => tbl.seen = "orig"
Durable == life = "dark" => Complete(tbl.seen)
Ends == <>(res # "none" \/ life # "up")
=============================================================================
