----------------------------- MODULE FileSysMC -----------------------------
(* Explores FileSys.tla exhaustively up to MaxOps operations and prints the  *)
(* histories (or, simulated, random ones) for replay on both file systems.   *)
EXTENDS FileSys, Json
CONSTANTS MaxOps, Emit
VARIABLE hist
ALL == <<disk, mem, wr, rd, hist>>
Init == FsInit /\ hist = <<>>
Op(a, o) == a /\ hist' = Append(hist, o)
Step ==
  \/ \E w \in Writers, p \in Paths, b \in BOOLEAN : Op(Create(w, p, b), [op |-> "create", h |-> w, p |-> p, buf |-> b])
  \/ \E w \in Writers, d \in Data : Op(Write(w, d), [op |-> "write", h |-> w, d |-> d])
  \/ \E w \in Writers : Op(Flush(w), [op |-> "flush", h |-> w]) \/ Op(Close(w), [op |-> "close", h |-> w])
  \/ \E p \in Paths : \/ \E d \in Data : Op(WriteFile(p, d), [op |-> "put", p |-> p, d |-> d])
                      \/ Op(Delete(p), [op |-> "delete", p |-> p])
                      \/ p \in DOMAIN disk /\ \E r \in Readers : Op(Open(r, p), [op |-> "open", h |-> r, p |-> p, buf |-> wr[CHOOSE w \in Writers : TRUE].open])
  \/ \E r \in Readers : Op(Read(r, 1), [op |-> "read", h |-> r, n |-> 1]) \/ Op(Read(r, 9), [op |-> "read", h |-> r, n |-> 9]) \/ Op(CloseReader(r), [op |-> "closer", h |-> r])
  \/ Op(Clear, [op |-> "clear"])
Next == Len(hist) < MaxOps /\ Step /\ (~Emit \/ Len(hist') < MaxOps \/ PrintT("VP " \o ToJson([ops |-> hist'])))
View == <<disk, mem, wr, rd, IF Emit THEN hist ELSE <<>>, Len(hist)>>
Sym == Permutations(Writers) \cup Permutations(Paths) \cup Permutations(Readers)
=============================================================================
