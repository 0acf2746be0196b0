------------------------------- MODULE WavMC -------------------------------
(* Explores the reader of Wav.tla on every sequence of chunks, the writer on *)
(* every sound, and prints the files and the stored records.                 *)
EXTENDS Wav, Json
CONSTANTS MaxLen, Cuts, FmtSizes, Sizes, Emit, Versions
Chunk == {[id |-> "fmt", size |-> n] : n \in FmtSizes} \cup {[id |-> i, size |-> n] : i \in {"data", "other"}, n \in Sizes}
Init == /\ chunks \in UNION {[1..n -> Chunk] : n \in 0..MaxLen} /\ honest \in BOOLEAN /\ cut \in Cuts
        /\ pos = 12 /\ fmt = 0 /\ res = Running
        /\ (~Emit \/ PrintT("VP " \o ToJson([chunks |-> chunks, honest |-> honest, cut |-> cut])))
Next == Read
Ends == res = Running => ENABLED Read
Sounds == [tag : {1, 2, 3}, cb : {0, 1, 22}, n : {0, 1, 2, 37, 38}]
ASSUME "size-36" \in Flaws \/ "no-pad-byte" \in Flaws \/ "size-from-cb" \in Flaws \/ \A s \in Sounds : WellFormed(Written(s)) /\ Faithful(Written(s), s)
WriterFlaw == \E s \in Sounds : ~(WellFormed(Written(s)) /\ Faithful(Written(s), s))
ASSUME Flaws \cap {"size-36", "no-pad-byte", "size-from-cb"} = {} \/ PrintT("VP " \o ToJson([flaw |-> WriterFlaw]))
ASSUME \A v \in Versions : \A w \in BOOLEAN : PrintT("VP " \o ToJson([version |-> v, wav |-> w, record |-> Record(v, w)]))
=============================================================================
