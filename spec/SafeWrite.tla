----------------------------- MODULE SafeWrite -----------------------------
(* Writing a table file stream by stream over storage that may fail (P24).  *)
(* Data goes into the stream's buffer and reaches storage when the buffer   *)
(* is flushed: explicitly (the error is seen) or when the stream goes away  *)
(* (the error is not).  A signature is computed from what storage holds.    *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS N,        \* streams, the last one is the signature
          Chunks,   \* buffer loads per stream
          Flaws     \* {} or subsets of "dropflush", "ignore", "noend"
VARIABLES pc, cur, chunk, buf, disk, sig, res, faults
vars == <<pc, cur, chunk, buf, disk, sig, res, faults>>
\* disk: chunks that reached storage; sig: the chunks the signature stands for
All == (1..N) \X (1..Chunks)
Init == pc = "open" /\ cur = 1 /\ chunk = 1 /\ buf = {} /\ disk = {} /\ sig = {} /\ res = "none" /\ faults = 0
Go == res = "none"
Err == res' = "err" /\ pc' = "end" /\ faults' = faults + 1
Open == /\ Go /\ pc = "open" /\ pc' = "create" /\ UNCHANGED <<cur, chunk, buf, disk, sig, res, faults>>
Create == /\ Go /\ pc = "create" /\ pc' = "put" /\ chunk' = 1
          /\ sig' = IF cur = N THEN disk ELSE sig
          /\ UNCHANGED <<cur, buf, disk, res, faults>>
\* putting more than fits flushes what is there first
Put == /\ Go /\ pc = "put"
       /\ disk' = disk \cup buf /\ buf' = {<<cur, chunk>>}
       /\ IF chunk < Chunks THEN chunk' = chunk + 1 /\ pc' = "put" ELSE chunk' = chunk /\ pc' = "close"
       /\ UNCHANGED <<cur, sig, res, faults>>
Close == /\ Go /\ pc = "close"
         /\ disk' = disk \cup buf /\ buf' = {}
         /\ IF cur < N THEN cur' = cur + 1 /\ pc' = "create" ELSE cur' = cur /\ pc' = "finish"
         /\ UNCHANGED <<chunk, sig, res, faults>>
Finish == /\ Go /\ pc = "finish" /\ res' = "ok" /\ pc' = "end" /\ UNCHANGED <<cur, chunk, buf, disk, sig, faults>>
Fault == /\ Go /\ faults < 2
         /\ \/ /\ pc \in {"open", "create"} /\ Err /\ UNCHANGED <<cur, chunk, buf, disk, sig>>
            \/ /\ pc = "put" /\ buf # {}
               /\ IF "ignore" \in Flaws
                  THEN /\ faults' = faults + 1 /\ buf' = {<<cur, chunk>>} /\ UNCHANGED <<cur, disk, sig, res>>
                       /\ IF chunk < Chunks THEN chunk' = chunk + 1 /\ pc' = "put" ELSE chunk' = chunk /\ pc' = "close"
                  ELSE Err /\ UNCHANGED <<cur, chunk, buf, disk, sig>>
            \/ /\ pc = "close" /\ buf # {}
               /\ IF "dropflush" \in Flaws
                  THEN /\ faults' = faults + 1 /\ buf' = {} /\ UNCHANGED <<chunk, disk, sig, res>>
                       /\ IF cur < N THEN cur' = cur + 1 /\ pc' = "create" ELSE cur' = cur /\ pc' = "finish"
                  ELSE Err /\ UNCHANGED <<cur, chunk, buf, disk, sig>>
            \/ /\ pc = "finish" /\ UNCHANGED <<cur, chunk, buf, disk, sig>>
               /\ IF "noend" \in Flaws THEN res' = "ok" /\ pc' = "end" /\ faults' = faults + 1 ELSE Err
Next == Open \/ Create \/ Put \/ Close \/ Finish \/ Fault
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* P24
Reported == faults > 0 /\ res # "none" => res = "err"
WholeIfOk == res = "ok" => disk = All /\ sig = {x \in All : x[1] < N}
Ends == <>(res # "none")
=============================================================================
