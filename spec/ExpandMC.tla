------------------------------ MODULE ExpandMC ------------------------------
(* The part lists Expand.tla is explored for; every finished behaviour is    *)
(* printed (part list, order of storage operations, damage) and replayed on  *)
(* the real extraction.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Family, MaxLen, Workers, MaxFault, MaxDamage, Flaws, Emit
VARIABLES ps, stems, ph, left, files, log, wf, werr, hurt, got, rf, rerr, done

It(k, n, f) == [kind |-> k, name |-> n, ext |-> <<>>, frames |-> f]
Fl(k, n, e) == [kind |-> k, name |-> n, ext |-> e, frames |-> 0]
A == <<"A">>
A0 == <<"a">>
ItemPool == TLCEval({It("prim", A, 0), It("prim", A, 2), It("prim", A0, 1), It("prim", <<"A", "_", "anim", "_", "0">>, 0), It("prim", <<"A", "_", "ANIM", "_", "1">>, 1),
             It("prim", <<"json">>, 1), It("prim", <<"A", "_", "_", "1">>, 0), It("wall", A, 0), It("prim", <<>>, 1), It("prim", <<"unnamed">>, 0),
             It("prim", <<"A", "/">>, 1), It("prim", <<"A", "_">>, 0), It("prim", <<".", ".", "/", "A">>, 0), It("prim", <<"A", ".", "json">>, 1),
             It("prim", <<"A", "_", "anim", "_">>, 1), It("wall", <<"A", "_", "anim", "_", "0">>, 0)})
ItemFew == TLCEval({It("prim", A, 2), It("prim", A0, 0), It("prim", <<"A", "_", "anim", "_", "0">>, 1), It("wall", A, 0), It("prim", <<"json">>, 1), It("prim", <<"A", "_", "_", "1">>, 0)})
FileNames == TLCEval({A, A0, <<"A", "_", "dedup", "1">>, <<"a", "_", "DEDUP", "2">>, <<"A", "/">>, <<"A", "?">>, <<>>, <<".", ".">>, <<".", ".", "/", "A">>, <<"/">>, <<"A", "_", "dedup", "1", "_", "dedup", "1">>})
FileFew == TLCEval({A, A0, <<"A", "_", "dedup", "1">>, <<"A", "/">>, <<>>, <<".", ".", "/">>})
PNG == <<"png">>
X(n) == IF n % 2 = 0 THEN PNG ELSE <<"PNG">>
ListsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Kind(k, S) == {Fl(k, n, PNG) : n \in S}
Mixed == {Fl("img", A, PNG), Fl("img", A0, <<"PNG">>), Fl("link", A, PNG), Fl("link", <<"A", "_", "dedup", "1">>, PNG), Fl("img", A0, <<"bmp">>)}
TheLists == TLCEval(
  CASE Family = "items" -> ListsUpTo(ItemPool, MaxLen)
    [] Family = "items-few" -> ListsUpTo(ItemFew, MaxLen)
    [] Family = "files" -> UNION {ListsUpTo(Kind(k, FileNames), MaxLen) : k \in {"img", "snd", "fnt"}}
    [] Family = "files-few" -> UNION {ListsUpTo(Kind(k, FileFew), MaxLen) : k \in {"img", "snd", "fnt"}} \cup ListsUpTo(Mixed, MaxLen)
    [] Family = "whole" -> {<<It("prim", A, 2), It("wall", A, 0), It("prim", A0, 0), Fl("img", A, PNG), Fl("snd", A, <<"wav">>), Fl("fnt", A, <<"ttf">>)>>,
                            <<It("prim", A, 1), It("prim", <<"A", "_", "anim", "_", "0">>, 1), Fl("img", A, PNG), Fl("img", A0, PNG), Fl("link", A, PNG)>>,
                            <<>>}
    \* distinct items for the schedules
    [] Family = "sched" -> {[k \in 1..n |-> It(IF k % 3 = 0 THEN "wall" ELSE "prim", <<"A", "_", <<"0", "1", "2", "x", "y", "z">>[k]>>, IF k = 1 THEN 1 ELSE 0)] : n \in 1..MaxLen})

E == INSTANCE Expand WITH Lists <- TheLists
vars == <<ps, stems, ph, left, files, log, wf, werr, hurt, got, rf, rerr, done>>
Init == E!Init
Next == E!Next /\ (Emit = "" \/ ph' = ph \/
        (Emit = "list" /\ (ph' # "end" \/ PrintT("VP " \o ToJson([ps |-> ps])))) \/
        (Emit = "write" /\ (ph' # "written" \/ PrintT("VP " \o ToJson([ps |-> ps, ord |-> SelectSeq(log, LAMBDA f : f[1] = "gameitems"),
                                     own |-> [i \in DOMAIN ps |-> E!FilesOf(ps[i], stems[i])]])))) \/
        (Emit = "read" /\ (ph' # "end" \/ PrintT("VP " \o ToJson([ps |-> ps, ord |-> done])))) \/
        (Emit = "hurt" /\ (ph' # "read" \/ hurt = <<>> \/ PrintT("VP " \o ToJson([ps |-> ps, hurt |-> hurt, role |-> E!Role(hurt[1][1]), refuse |-> E!Refuse(hurt[1][1], hurt[1][2])])))))
View == <<ps, ph, left, files, IF Emit \in {"write"} THEN log ELSE <<ToSet(log), Len(log)>>, wf, werr, hurt, IF "completion-order" \in Flaws \/ Emit = "read" THEN got ELSE ToSet(got), rf, rerr, IF Emit = "read" THEN done ELSE ToSet(done)>>
OwnFile == E!OwnFile
Inside == E!Inside
Honest == E!Honest
RoundTrip == E!RoundTrip
SameFiles == E!SameFiles
Refused == E!Refused
NothingElse == E!NothingElse
NoFalseAlarm == (MaxFault = 0 /\ MaxDamage = 0) => ph \notin {"failed", "rfailed"}
=============================================================================
