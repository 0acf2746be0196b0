------------------------------ MODULE LzwTrace ------------------------------
(* Runs the decoder of Lzw.tla on real compressed streams.                   *)
EXTENDS Lzw, Json, IOUtils, SequencesExt
VARIABLE n
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
NoMarker == <<>>
V(name, bad) == IF bad THEN {name} ELSE {}
RECURSIVE Lens(_, _)
Lens(s, p) == IF p > Len(s) THEN <<>> ELSE <<s[p]>> \o Lens(s, p + s[p] + 1)
Blocky(s) == LET l == Lens(s, 1) IN (\A k \in 1..(Len(l) - 1) : l[k] = MaxBlock) /\ (\A k \in DOMAIN l : l[k] > 0)
Exact(s) == LET RECURSIVE E(_) E(p) == IF p > Len(s) THEN p = Len(s) + 1 ELSE E(p + s[p] + 1) IN E(1)
Whole(c) == c.mode # "compress" \/ (Exact(c.blocks) /\ Blocky(c.blocks))
Why(c) == CASE st = "wrong" -> {"the compressed form means other data"}
            [] st = "no end" -> {"the compressed form has no end"}
            [] OTHER -> V("the compressed form ends before its data", at # Len(data))
                        \cup V("the compressed form holds more than its data", left # 0 \/ ip # Len(in) + 1 \/ acc # 0 \/ nb >= ByteBits)
Verdict(c) == Why(c) \cup V("the compressed form is not a sequence of blocks", ~Whole(c)) \cup V("decompressing does not give the data", ~c.back) \cup ToSet(c.more)
Init == n = 1 /\ Start(Cases[1].data, Cases[1].blocks)
Done == st # "run"
Next == \/ n <= Len(Cases) /\ ~Done /\ Decode /\ n' = n
        \/ /\ n <= Len(Cases) /\ Done /\ n' = n + 1
           /\ LET y == Verdict(Cases[n]) IN y = {} \/ PrintT("VP " \o ToJson([id |-> Cases[n].id, why |-> SetToSeq(y)]))
           /\ IF n < Len(Cases) THEN Load(Cases[n + 1].data, Cases[n + 1].blocks) ELSE UNCHANGED vars
View == <<n, ip, nb, st>>
=============================================================================
