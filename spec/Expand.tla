------------------------------- MODULE Expand -------------------------------
(* Extraction of a table to a directory and reassembly from it.              *)
(* A table is a list of parts: items (prim = primitive with a mesh and       *)
(* animation frames, wall = any item without files of its own), images       *)
(* (img; link = an image without data), sounds and fonts. Names are          *)
(* sequences of tokens; Lower folds case, Keep* drops or replaces what may   *)
(* not appear in a file name. Extraction chooses a stem for every part,      *)
(* writes the index files, then the parts' files - items by concurrent       *)
(* workers - and any storage operation may fail. Afterwards one file may be  *)
(* lost or damaged. Reading takes the index files, then the parts, items     *)
(* again concurrently, and any storage operation may fail.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Lists, Workers, MaxFault, MaxDamage, Flaws

Items == {"prim", "wall"}
DirOf(k) == CASE k \in Items -> "gameitems" [] k \in {"img", "link"} -> "images" [] k = "snd" -> "sounds" [] k = "fnt" -> "fonts"
Dirs == <<"gameitems", "images", "sounds", "fonts">>

Lower1(t) == CASE t = "A" -> "a" [] t = "B" -> "b" [] t = "ANIM" -> "anim" [] t = "DEDUP" -> "dedup" [] t = "PRIM" -> "prim" [] OTHER -> t
Lower(n) == [k \in DOMAIN n |-> Lower1(n[k])]
Banned == {"/", "?", ":", " "}       \* " " stands for any other character that is not alphanumeric
Digits == {"0", "1", "2"}
----------------------------------------------------------------------------
\* the naming rules
ItemName(p) == IF p.name = <<>> THEN <<"unnamed">>
               ELSE [k \in DOMAIN p.name |-> IF p.name[k] \in Banned \cup {"."} THEN "_" ELSE p.name[k]]
RECURSIVE TrimDigits(_)
TrimDigits(n) == IF n # <<>> /\ Last(n) \in Digits THEN TrimDigits(Front(n)) ELSE n
LikeFrame(n) == LET m == Lower(TrimDigits(n)) IN Len(m) >= 3 /\ SubSeq(m, Len(m) - 2, Len(m)) = <<"_", "anim", "_">>
ItemStem(p) == LET s == <<IF p.kind = "prim" THEN "PRIM" ELSE "wall", ".">> \o ItemName(p)
               IN IF p.kind = "prim" /\ LikeFrame(s) /\ "anim-unguarded" \notin Flaws THEN Append(s, "_") ELSE s
Clean(n) == LET c == SelectSeq(n, LAMBDA t : t \notin {"/", "?", ":"})
            IN IF c \in {<<".">>, <<".", ".">>} THEN <<>> ELSE c
Num(k) == CASE k = 0 -> "0" [] k = 1 -> "1" [] k = 2 -> "2" [] OTHER -> "3"
Fold(n) == IF "case-sensitive" \in Flaws THEN n ELSE Lower(n)
\* item stems get __k until they are unused; other stems get _dedup<k>, k counting on through the directory
RECURSIVE FreeItem(_, _, _)
FreeItem(used, s, k) == LET n == IF k = 0 THEN s ELSE s \o <<"_", "_", Num(k)>>
                        IN IF Fold(n) \in used THEN FreeItem(used, s, k + 1) ELSE n
RECURSIVE FreeFile(_, _, _)
FreeFile(used, s, k) == LET n == s \o <<"_", "dedup", Num(k)>> IN IF Fold(n) \in used THEN FreeFile(used, s, k + 1) ELSE <<n, k>>
\* stems of a list, in order: used stems and counter per directory
RECURSIVE StemsFrom(_, _, _, _)
StemsFrom(ps, i, used, cnt) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET p == ps[i]
           d == DirOf(p.kind)
           base == IF d = "gameitems" THEN ItemStem(p) ELSE Clean(p.name)
           new == IF "no-dedup" \in Flaws \/ (d = "fonts" /\ "fonts-no-dedup" \in Flaws) THEN <<base, cnt[d]>>
                  ELSE IF d = "gameitems" THEN <<FreeItem(used[d], base, 0), cnt[d]>>
                  ELSE IF Fold(base) \notin used[d] THEN <<base, cnt[d]>>
                  ELSE IF "dedup-unchecked" \in Flaws THEN <<(IF "dedup-raw" \in Flaws THEN p.name ELSE base) \o <<"_", "dedup", Num(cnt[d] + 1)>>, cnt[d] + 1>>
                  ELSE FreeFile(used[d], base, cnt[d] + 1)
           mark == IF "dedup-unchecked" \in Flaws THEN Fold(base) ELSE Fold(new[1])
       IN <<new[1]>> \o StemsFrom(ps, i + 1, [used EXCEPT ![d] = @ \cup {mark}], [cnt EXCEPT ![d] = new[2]])
Stems(ps) == StemsFrom(ps, 1, [d \in Range(Dirs) |-> {}], [d \in Range(Dirs) |-> 0])
----------------------------------------------------------------------------
\* files: <<directory, name tokens>>
Ext(p) == IF p.kind \in Items THEN <<".", "obj">> ELSE <<".">> \o p.ext
FrameFile(s, k) == <<"gameitems", s \o <<"_", "anim", "_", Num(k), ".", "obj">>>>
FilesOf(p, s) ==
  CASE p.kind = "prim" -> <<<<"gameitems", s \o <<".", "json">>>>, <<"gameitems", s \o <<".", "obj">>>>>> \o [k \in 1..p.frames |-> FrameFile(s, k - 1)]
    [] p.kind = "wall" -> <<<<"gameitems", s \o <<".", "json">>>>>>
    [] p.kind = "link" -> <<>>
    [] OTHER -> <<<<DirOf(p.kind), s \o Ext(p)>>>>
Index(d) == <<"", <<d, ".", "json">>>>
Required1 == {<<"", <<"version">>>>, <<"", <<"gamedata">>>>, <<"", <<"script">>>>}
Optional1 == {<<"", <<"info">>>>, <<"", <<"materials">>>>, <<"", <<"renderprobes">>>>, <<"", <<"screenshot">>>>}
Top == Required1 \cup Optional1

VARIABLES ps, stems, ph, left, files, log, wf, werr, hurt, got, rf, rerr, done
vars == <<ps, stems, ph, left, files, log, wf, werr, hurt, got, rf, rerr, done>>

Init == /\ ps \in Lists
        /\ stems = Stems(ps)
        /\ ph = "index" /\ left = [i \in DOMAIN ps |-> FilesOf(ps[i], stems[i])]
        /\ files = <<>> /\ log = <<>> /\ wf = 0 /\ werr = FALSE /\ hurt = <<>>
        /\ got = <<>> /\ rf = 0 /\ rerr = FALSE /\ done = <<>>
----------------------------------------------------------------------------
\* writing
WriteIndex == /\ ph = "index"
              /\ \/ /\ files' = [f \in {Index(d) : d \in Range(Dirs)} \cup Top |-> <<0, "whole">>]
                    /\ log' = SetToSeq(DOMAIN files') /\ ph' = "work" /\ UNCHANGED <<wf, werr>>
                 \/ /\ wf < MaxFault /\ wf' = wf + 1 /\ werr' = TRUE /\ ph' = "failed" /\ UNCHANGED <<files, log>>
              /\ UNCHANGED <<ps, stems, left, hurt, got, rf, rerr, done>>
Busy == {i \in DOMAIN ps : ps[i].kind \in Items /\ left[i] # <<>>}
Started(i) == ps[i].kind \in Items /\ left[i] # <<>> /\ left[i] # FilesOf(ps[i], stems[i])
\* items: at most Workers at once; everything else in order, after the items
MayWrite(i) == IF ps[i].kind \in Items
               THEN /\ left[i] # <<>>
                    /\ Started(i) \/ Cardinality({j \in DOMAIN ps : Started(j)}) < Workers
                    /\ Started(i) \/ Workers > 1 \/ \A j \in Busy : i <= j
               ELSE left[i] # <<>> /\ Busy = {} /\ ~werr /\ \A j \in DOMAIN ps : ps[j].kind \notin Items /\ left[j] # <<>> => i <= j
WriteFile(i) ==
  /\ ph = "work" /\ MayWrite(i)
  /\ LET f == Head(left[i]) IN
     \/ /\ files' = (f :> <<i, "whole">>) @@ files
        /\ log' = Append(log, f)
        /\ left' = [left EXCEPT ![i] = Tail(@)]
        /\ UNCHANGED <<wf, werr>>
     \/ /\ wf < MaxFault /\ wf' = wf + 1
        /\ werr' = ("swallow" \notin Flaws)
        /\ left' = [left EXCEPT ![i] = <<>>]
        /\ files' = (f :> <<i, "part">>) @@ files
        /\ UNCHANGED log
  /\ UNCHANGED <<ps, stems, ph, hurt, got, rf, rerr, done>>
WriteEnd == /\ ph = "work" /\ (Busy = {} /\ (werr \/ \A i \in DOMAIN ps : left[i] = <<>>))
            /\ ph' = IF werr THEN "failed" ELSE "written"
            /\ UNCHANGED <<ps, stems, left, files, log, wf, werr, hurt, got, rf, rerr, done>>
----------------------------------------------------------------------------
\* a file is lost or damaged before the directory is read
Damage == /\ ph = "written" /\ Len(hurt) < MaxDamage
          /\ \E f \in DOMAIN files : \E how \in {"gone", "junk"} :
               /\ f \notin {hurt[k][1] : k \in DOMAIN hurt}
               /\ files' = IF how = "gone" THEN [g \in DOMAIN files \ {f} |-> files[g]] ELSE [files EXCEPT ![f] = <<@[1], "junk">>]
               /\ hurt' = Append(hurt, <<f, how>>)
          /\ UNCHANGED <<ps, stems, ph, left, log, wf, werr, got, rf, rerr, done>>
StartRead == /\ ph = "written" /\ ph' = "read"
             /\ UNCHANGED <<ps, stems, left, files, log, wf, werr, hurt, got, rf, rerr, done>>
----------------------------------------------------------------------------
\* reading
Has(f) == f \in DOMAIN files
Whole(f) == Has(f) /\ files[f][2] = "whole"
Bad(f) == Has(f) /\ files[f][2] # "whole"
\* the parts the index files name; a missing index names none
Indexed == {i \in DOMAIN ps : Has(Index(DirOf(ps[i].kind)))}
TopBad == \/ \E f \in Required1 : ~Has(f)
          \/ \E f \in Top \ {<<"", <<"script">>>>, <<"", <<"screenshot">>>>} : Bad(f)
          \/ \E d \in Range(Dirs) : Bad(Index(d))
\* the reader's idea of an item's stem: the index file name without its suffix
RECURSIVE StripAll(_)
StripAll(s) == IF Len(s) > 2 /\ SubSeq(s, Len(s) - 1, Len(s)) = <<".", "json">> THEN StripAll(SubSeq(s, 1, Len(s) - 2)) ELSE s
ReadStem(i) == IF "strip-repeatedly" \in Flaws THEN StripAll(stems[i]) ELSE stems[i]
RECURSIVE FramesAt(_, _)
FramesAt(s, k) == IF Has(FrameFile(s, k)) THEN <<files[FrameFile(s, k)]>> \o FramesAt(s, k + 1) ELSE <<>>
\* a part as read: was there an error, and which files it is made of
PartAt(i) ==
  LET p == ps[i]
      s == ReadStem(i)
      j == <<"gameitems", stems[i] \o <<".", "json">>>>
      m == <<"gameitems", s \o <<".", "obj">>>>
      f == <<DirOf(p.kind), stems[i] \o Ext(p)>>
      fr == FramesAt(s, 0)
  IN CASE p.kind \in Items ->
            IF ~Whole(j) THEN <<TRUE, <<>>>>
            ELSE IF p.kind = "wall" THEN <<FALSE, <<files[j]>>>>
            ELSE IF Bad(m) \/ \E k \in DOMAIN fr : fr[k][2] # "whole" THEN <<TRUE, <<>>>>
            ELSE <<FALSE, <<files[j]>> \o (IF Has(m) THEN <<files[m]>> ELSE <<>>) \o fr>>
       [] p.kind = "link" -> <<FALSE, <<>>>>
       [] OTHER -> IF ~Has(f) THEN <<TRUE, <<>>>> ELSE <<FALSE, <<files[f]>>>>     \* raw data: damage cannot be seen
Want(i) == [k \in DOMAIN FilesOf(ps[i], stems[i]) |-> <<i, "whole">>]
ReadTop == /\ ph = "read"
           /\ \/ rerr' = TopBad /\ ph' = (IF TopBad THEN "rfailed" ELSE "parts") /\ UNCHANGED rf
              \/ rf < MaxFault /\ rf' = rf + 1 /\ rerr' = TRUE /\ ph' = "rfailed"
           /\ UNCHANGED <<ps, stems, left, files, log, wf, werr, hurt, got, done>>
MayRead(i) == /\ i \in Indexed /\ i \notin Range(done)
              /\ IF ps[i].kind \in Items THEN Workers > 1 \/ \A j \in Indexed \ Range(done) : i <= j
                 ELSE \A j \in Indexed \ Range(done) : ps[j].kind \notin Items /\ i <= j
ReadPart(i) ==
  /\ ph = "parts" /\ MayRead(i)
  /\ done' = Append(done, i)
  /\ \/ /\ UNCHANGED rf
        /\ LET r == PartAt(i) IN
           IF r[1] THEN IF "missing-skipped" \in Flaws THEN UNCHANGED <<got, rerr>> ELSE rerr' = TRUE /\ UNCHANGED got
           ELSE got' = Append(got, <<i, r[2]>>) /\ UNCHANGED rerr
     \/ rf < MaxFault /\ rf' = rf + 1 /\ rerr' = TRUE /\ UNCHANGED got
  /\ UNCHANGED <<ps, stems, ph, left, files, log, wf, werr, hurt>>
ReadEnd == /\ ph = "parts" /\ (Indexed \subseteq Range(done) \/ (rerr /\ \A i \in Indexed : ps[i].kind \in Items => i \in Range(done)))
           /\ ph' = IF rerr THEN "rfailed" ELSE "end"
           \* the results are put in the order of the index
           /\ got' = IF "completion-order" \in Flaws THEN got ELSE SortSeq(got, LAMBDA x, y : x[1] < y[1])
           /\ UNCHANGED <<ps, stems, left, files, log, wf, werr, hurt, rf, rerr, done>>
Next == WriteIndex \/ WriteEnd \/ Damage \/ StartRead \/ ReadTop \/ ReadEnd \/ \E i \in DOMAIN ps : WriteFile(i) \/ ReadPart(i)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* P12
OwnFile == \A a, b \in DOMAIN log : a # b => <<log[a][1], Lower(log[a][2])>> # <<log[b][1], Lower(log[b][2])>>
Inside == \A a \in DOMAIN log : Range(log[a][2]) \cap {"/"} = {}
\* P13
Honest == /\ (ph = "written" => wf = 0 /\ \A i \in DOMAIN ps : \A k \in DOMAIN FilesOf(ps[i], stems[i]) : FilesOf(ps[i], stems[i])[k] \in DOMAIN files \cup {h[1] : h \in Range(hurt)})
          /\ (ph = "end" => rf = 0)
          /\ (ph = "failed" => wf > 0)
          /\ (ph = "rfailed" => rf > 0 \/ hurt # <<>>)
\* P11, P14: whatever the order of the workers, the table that is read is the table that was written
RoundTrip == ph = "end" /\ hurt = <<>> => got = [i \in DOMAIN ps |-> <<i, Want(i)>>]
SameFiles == ph = "written" /\ hurt = <<>> =>
             \A i \in DOMAIN ps : \A k \in DOMAIN FilesOf(ps[i], stems[i]) : files[FilesOf(ps[i], stems[i])[k]] = <<i, "whole">>
\* P15: a required file that is missing, or a damaged file whose damage can be seen, is an error;
\* a missing optional file costs exactly what it holds
Role(f) == IF f \in Required1 THEN "required" ELSE IF f \in Optional1 THEN "optional"
           ELSE IF f[1] = "" THEN "index"
           ELSE IF f[1] = "gameitems" /\ Last(f[2]) = "json" THEN "required"
           ELSE IF f[1] = "gameitems" THEN "mesh" ELSE "raw"
Refuse(f, how) == IF how = "gone" THEN Role(f) \in {"required", "raw"}
                  ELSE Role(f) \in {"required", "index", "mesh", "optional"} /\ f \notin {<<"", <<"script">>>>, <<"", <<"screenshot">>>>}
Refused == (ph = "end" => \A k \in DOMAIN hurt : (\E i \in Indexed : hurt[k][1] \in Range(FilesOf(ps[i], stems[i]))) \/ hurt[k][1][1] = ""
                              => (~Refuse(hurt[k][1], hurt[k][2]) \/ (hurt[k][1][1] = "gameitems" /\ Len(hurt) > 1)))
NothingElse == ph = "end" /\ Len(hurt) = 1 /\ hurt[1][2] = "gone" =>
   LET f == hurt[1][1] IN
   \A i \in DOMAIN ps : IF f = Index(DirOf(ps[i].kind)) THEN \A x \in Range(got) : x[1] # i
                        ELSE IF Role(f) = "mesh" /\ f \in Range(FilesOf(ps[i], stems[i])) THEN \E x \in Range(got) : x[1] = i
                        ELSE <<i, Want(i)>> \in Range(got)
=============================================================================
