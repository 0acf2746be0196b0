------------------------------ MODULE FileSys ------------------------------
(* The storage the library extracts to and reads from: a disk, and the file  *)
(* system kept in memory. Contents are strings. Both are driven by the same  *)
(* history. A writer of the disk changes the file at once (or, if buffered,  *)
(* some time before it is flushed or closed); a writer of the memory file    *)
(* system collects everything and publishes it when flushed or closed.       *)
(* While a writer has something that is not published its file is in flux:   *)
(* the two need not agree about it. A file has one writer at a time, is not  *)
(* removed under its writer, and a reader of a file that is written anew is  *)
(* stale.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Paths, Writers, Readers, Data, Flaws
VARIABLES disk, mem, wr, rd
fsvars == <<disk, mem, wr, rd>>
None == [open |-> FALSE]
FsInit == disk = <<>> /\ mem = <<>> /\ wr = [w \in Writers |-> None] /\ rd = [r \in Readers |-> None]
Busy(p) == \E w \in Writers : wr[w].open /\ wr[w].p = p
Flux(p) == \E w \in Writers : wr[w].open /\ wr[w].p = p /\ wr[w].fresh
Drop(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
Key(p) == IF "shared-key" \in Flaws THEN CHOOSE q \in Paths : TRUE ELSE p
Stale(p) == [r \in Readers |-> IF rd[r].open /\ rd[r].p = p THEN [rd[r] EXCEPT !.stale = TRUE] ELSE rd[r]]
Create(w, p, buffered) ==
  /\ ~wr[w].open /\ ~Busy(p)
  /\ wr' = [wr EXCEPT ![w] = [open |-> TRUE, p |-> p, all |-> IF "append" \in Flaws /\ p \in DOMAIN mem THEN mem[p] ELSE "", fresh |-> TRUE, buffered |-> buffered]]
  /\ disk' = (p :> "") @@ disk
  /\ rd' = Stale(p) /\ UNCHANGED mem
Write(w, d) ==
  /\ wr[w].open
  /\ wr' = [wr EXCEPT ![w] = [@ EXCEPT !.all = @ \o d, !.fresh = TRUE]]
  /\ disk' = [disk EXCEPT ![wr[w].p] = @ \o d]
  /\ rd' = Stale(wr[w].p) /\ UNCHANGED mem
Flush(w) ==
  /\ wr[w].open
  /\ mem' = IF "no-flush" \in Flaws THEN mem ELSE (Key(wr[w].p) :> wr[w].all) @@ mem
  /\ wr' = [wr EXCEPT ![w] = [@ EXCEPT !.fresh = FALSE, !.all = IF "flush-forgets" \in Flaws THEN "" ELSE @]]
  /\ UNCHANGED <<disk, rd>>
Close(w) ==
  /\ wr[w].open
  /\ mem' = IF "no-close" \in Flaws THEN mem ELSE (Key(wr[w].p) :> wr[w].all) @@ mem
  /\ wr' = [wr EXCEPT ![w] = None]
  /\ UNCHANGED <<disk, rd>>
WriteFile(p, d) ==
  /\ ~Busy(p)
  /\ disk' = (p :> d) @@ disk /\ mem' = (Key(p) :> d) @@ mem
  /\ rd' = Stale(p) /\ UNCHANGED wr
Delete(p) ==
  /\ ~Busy(p)
  /\ disk' = Drop(disk, p) /\ mem' = Drop(mem, p)
  /\ UNCHANGED <<wr, rd>>
Clear == /\ \A p \in Paths : ~Busy(p)
         /\ disk' = <<>> /\ mem' = <<>> /\ UNCHANGED <<wr, rd>>
Open(r, p) ==
  /\ ~rd[r].open /\ ~Flux(p) /\ p \in DOMAIN disk
  /\ rd' = [rd EXCEPT ![r] = [open |-> TRUE, p |-> p, left |-> disk[p], memleft |-> IF p \in DOMAIN mem THEN mem[p] ELSE "lost", stale |-> FALSE]]
  /\ UNCHANGED <<disk, mem, wr>>
Min(a, b) == IF a < b THEN a ELSE b
Read(r, k) ==
  /\ rd[r].open /\ ~rd[r].stale
  /\ rd' = [rd EXCEPT ![r] = [@ EXCEPT !.left = SubSeq(@, Min(k, Len(@)) + 1, Len(@)), !.memleft = SubSeq(@, Min(k, Len(@)) + 1, Len(@))]]
  /\ UNCHANGED <<disk, mem, wr>>
CloseReader(r) == rd[r].open /\ rd' = [rd EXCEPT ![r] = None] /\ UNCHANGED <<disk, mem, wr>>
----------------------------------------------------------------------------
Agree == \A p \in Paths : ~Flux(p) => /\ (p \in DOMAIN disk) = (p \in DOMAIN mem)
                                      /\ p \in DOMAIN disk => disk[p] = mem[p]
ReadersAgree == \A r \in Readers : rd[r].open /\ ~rd[r].stale => rd[r].left = rd[r].memleft
NothingElse == DOMAIN mem \subseteq Paths
=============================================================================
