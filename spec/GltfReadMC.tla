----------------------------- MODULE GltfReadMC -----------------------------
(* A tool writes a mesh of N vertices: it places its arrays one view at a   *)
(* time, then lists the accessors.                                          *)
EXTENDS GltfRead, FiniteSets, TLC, Json
CONSTANTS N, Gaps, Emit
VARIABLES todo, views, where, mem, top, listed, iw, phase
vars == <<todo, views, where, mem, top, listed, iw, phase>>
Arrays == {"pos", "nor", "tex", "idx"}
Width(a) == IF a = "idx" THEN iw ELSE 4
Per(a) == CASE a = "tex" -> 2 [] a = "idx" -> 1 [] OTHER -> 3
Count(a) == IF a = "idx" THEN 3 ELSE N
Value(a, i, k) == CASE a = "pos" -> 10 * i + k [] a = "nor" -> 100 + 10 * i + k [] a = "tex" -> 200 + 10 * i + k [] OTHER -> (N - i) % N
Init == /\ todo \in {t \in SUBSET Arrays : "pos" \in t} /\ iw \in {1, 2, 4}
        /\ ("idx" \notin todo => iw = 4)
        /\ views = <<>> /\ where = [a \in {} |-> 0] /\ mem = <<>> /\ top = 0 /\ listed = <<>> /\ phase = "place"
Order(s) == SelectSeq(<<"nor", "tex", "pos">>, LAMBDA a : a \in s)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE 4 * Per(Head(s)) + Sum(Tail(s))
(* some float arrays, element by element, behind each other                 *)
Interleave(s, gap, pad) ==
  LET o == Order(s) st == Sum(o) + pad off(j) == Sum(SubSeq(o, 1, j - 1))
      base == top + gap
      cells == [q \in 1..((N * Sum(o)) \div 4) |->
                  LET i == (q - 1) \div (Sum(o) \div 4) r == (q - 1) % (Sum(o) \div 4)
                      j == CHOOSE j \in DOMAIN o : off(j) <= 4 * r /\ 4 * r < off(j) + 4 * Per(o[j])
                  IN [o |-> base + i * st + 4 * r, w |-> 4, x |-> Value(o[j], i + 1, (4 * r - off(j)) \div 4 + 1)]] IN
  /\ views' = Append(views, [off |-> base, stride |-> IF Len(o) = 1 /\ pad = 0 THEN 0 ELSE st])
  /\ where' = [a \in DOMAIN where \cup s |-> IF a \in s THEN [view |-> Len(views) + 1, off |-> off(CHOOSE j \in DOMAIN o : o[j] = a)] ELSE where[a]]
  /\ mem' = mem \o cells
  /\ top' = base + N * st
Indices(gap) ==
  /\ views' = Append(views, [off |-> top, stride |-> 0])
  /\ where' = [a \in DOMAIN where \cup {"idx"} |-> IF a = "idx" THEN [view |-> Len(views) + 1, off |-> gap] ELSE where[a]]
  /\ mem' = mem \o [i \in 1..3 |-> [o |-> top + gap + (i - 1) * iw, w |-> iw, x |-> Value("idx", i, 1)]]
  /\ top' = top + gap + 4 * ((3 * iw + 3) \div 4)
Place == /\ phase = "place" /\ todo # {}
         /\ \E s \in SUBSET todo \ {{}} : \E gap \in Gaps :
              /\ ("idx" \in s => s = {"idx"})
              /\ IF s = {"idx"} THEN Indices(gap) ELSE \E pad \in {0, 4} : Interleave(s, gap, pad)
              /\ todo' = todo \ s
         /\ UNCHANGED <<listed, iw, phase>>
List == /\ todo = {} /\ phase # "done"
        /\ \E a \in DOMAIN where : (~\E i \in DOMAIN listed : listed[i] = a) /\ listed' = Append(listed, a)
        /\ phase' = IF Len(listed) + 1 = Cardinality(DOMAIN where) THEN "done" ELSE "list"
        /\ UNCHANGED <<todo, views, where, mem, top, iw>>
Next == Place \/ List
At(a) == IF \E i \in DOMAIN listed : listed[i] = a THEN CHOOSE i \in DOMAIN listed : listed[i] = a ELSE 0
Doc == [mem |-> mem, views |-> views, acc |-> [i \in DOMAIN listed |-> [view |-> where[listed[i]].view, off |-> where[listed[i]].off, w |-> Width(listed[i]), n |-> Per(listed[i]), count |-> Count(listed[i])]],
        prim |-> [pos |-> At("pos"), nor |-> At("nor"), tex |-> At("tex"), idx |-> At("idx")]]
Want == [v |-> [i \in 1..N |-> [k \in 1..8 |-> CASE k <= 3 -> Value("pos", i, k) [] k <= 6 -> IF "nor" \in DOMAIN where THEN Value("nor", i, k - 3) ELSE 0
                                                    [] OTHER -> IF "tex" \in DOMAIN where THEN Value("tex", i, k - 6) ELSE 0]],
         f |-> IF "idx" \in DOMAIN where THEN <<<<((N - 1) % N) + 1, ((N - 2) % N) + 1, ((N - 3) % N) + 1>>>> ELSE Triples([i \in 1..N |-> i])]
ReadRight == phase = "done" => ReadGltfFile(Doc) = Want
(* no two numbers lie on each other                                         *)
Apart == \A i, j \in DOMAIN mem : i # j => mem[i].o + mem[i].w <= mem[j].o \/ mem[j].o + mem[j].w <= mem[i].o
Report == (phase = "done" /\ "x" \in Emit) => PrintT("VP " \o ToJson([views |-> views, acc |-> [i \in DOMAIN listed |-> [a |-> listed[i], view |-> where[listed[i]].view, off |-> where[listed[i]].off]], iw |-> iw]))
=============================================================================
