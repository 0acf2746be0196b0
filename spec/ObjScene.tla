------------------------------ MODULE ObjScene ------------------------------
(* The OBJ exporter: it writes the playfield and then part after part, an   *)
(* object with its faces, the definition of its material and the file of    *)
(* its image. Names lose their blanks in the material library and the       *)
(* slashes of an image's name become underlines, so that names which differ *)
(* may meet.                                                                *)
EXTENDS ObjDoc, TLC

CONSTANTS Flaws,    \* set of mistakes to make (none: the design)
          Pool,     \* the items a table may have
          N         \* how many
VARIABLES its, dedup, tex, plunger, pf, ph, k, objects, defs, off, names, files
vars == <<its, dedup, tex, plunger, pf, ph, k, objects, defs, off, names, files>>
Bad(f) == f \in Flaws
NoF == [x \in {} |-> 0]

San(m) == CASE m = "A B" -> "AB" [] OTHER -> m
SanImg(p) == CASE p = "a/b" -> "a_b" [] OTHER -> p
KD == [x \in {"A B", "AB", "A", "A__a_b", "pf"} |-> "kd of " \o x]

Init == /\ its = << >> /\ dedup \in BOOLEAN /\ tex \in BOOLEAN /\ plunger \in BOOLEAN
        /\ pf \in {<<"", "">>, <<"pf", "">>, <<"A B", "a/b">>} /\ ph = "items" /\ k = 1
        /\ objects = << >> /\ defs = << >> /\ off = 0 /\ names = NoF /\ files = NoF
AddItem == ph = "items" /\ Len(its) < N /\ \E x \in Pool : its' = Append(its, x)
           /\ UNCHANGED <<dedup, tex, plunger, pf, ph, k, objects, defs, off, names, files>>
Begin == ph = "items" /\ ph' = "write" /\ UNCHANGED <<its, dedup, tex, plunger, pf, k, objects, defs, off, names, files>>

Todo == LET ps(it) == LET p == ObjParts(it, tex, plunger, FALSE, pf[2], pf[1]) IN [i \in DOMAIN p |-> [p |-> p[i], nv |-> it.nv + i - 1, nf |-> it.nf]] IN
        <<[p |-> [n |-> "Table", m |-> pf[1], i |-> pf[2]], nv |-> 4, nf |-> 2]>> \o Cat(ps, its)
(* the file for the image p: its own name, made unique                      *)
Fresh(taken, base) == IF base \notin taken THEN base ELSE CHOOSE x \in {base \o "_2", base \o "_3", base \o "_4"} : x \notin taken
Taken(f) == {f[x] : x \in DOMAIN f}
File(p) == IF p \in DOMAIN files THEN files[p] ELSE IF Bad("imgname") THEN SanImg(p) ELSE Fresh(Taken(files), SanImg(p))
(* the name of material m with picture p                                    *)
Key(m, p) == CASE tex \/ Bad("texkey") -> <<m, p>> [] OTHER -> <<m, "">>
Base(m, p) == San(m) \o (IF tex /\ p # "" THEN "__" \o SanImg(p) ELSE "")
Unique == dedup \/ tex
Name(m, p) == IF Key(m, p) \in DOMAIN names THEN names[Key(m, p)]
              ELSE IF Unique /\ ~Bad("rawkey") /\ ~Bad("texkey") THEN Fresh(Taken(names), Base(m, p)) ELSE Base(m, p)
Write ==
  /\ ph = "write"
  /\ IF k > Len(Todo) THEN ph' = "done" /\ UNCHANGED <<k, objects, defs, off, names, files>>
     ELSE LET t == Todo[k]
              p == IF t.p.i # "" /\ tex THEN t.p.i ELSE ""
              own == t.p.m # "-"
              name == IF own THEN Name(t.p.m, t.p.i) ELSE objects[Len(objects)].m[1]
              first == off + 1
              last == off + t.nv
              base == IF Bad("facebase") THEN 0 ELSE off
              faces == <<base + 1, base + t.nv>>
              known == Key(t.p.m, t.p.i) \in DOMAIN names IN
          /\ k' = k + 1 /\ UNCHANGED ph
          /\ objects' = Append(objects, [n |-> t.p.n, v |-> <<first, last>>, vt |-> <<first, last>>, vn |-> <<first, last>>,
                                         fv |-> faces, ft |-> IF Bad("texcoords") /\ t.nf = 1 THEN <<base + 1, base + 1 + t.nv>> ELSE faces, fn |-> faces, faces |-> t.nf, m |-> <<name>>])
          /\ off' = off + (IF Bad("offset") THEN 3 * t.nf ELSE t.nv)
          /\ files' = IF p = "" THEN files ELSE (p :> File(p)) @@ files
          /\ names' = IF own THEN (Key(t.p.m, t.p.i) :> name) @@ names ELSE names
          /\ LET skip == IF Bad("bymaterial") THEN \E x \in DOMAIN names : x[1] = t.p.m
                         ELSE known /\ (dedup \/ p # "") IN
             defs' = IF own /\ ~(skip /\ ~Bad("nodedup"))
                     THEN Append(defs, [n |-> name, kd |-> Colour(KD, t.p.m), maps |-> IF p = "" THEN << >> ELSE <<File(p), File(p)>>]) ELSE defs
  /\ UNCHANGED <<its, dedup, tex, plunger, pf>>
Next == AddItem \/ Begin \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Write)

(* what a file shows: the image last written to it                          *)
Content(f) == CHOOSE p \in DOMAIN files : files[p] = f /\ \A q \in DOMAIN files : files[q] = f => q \in {p, "a_b"} \/ p = "a_b"
Doc == [objects |-> objects, defs |-> [i \in DOMAIN defs |-> [defs[i] EXCEPT !.maps = [j \in DOMAIN @ |-> "=" \o Content(@[j])]]]]
Sound == ph = "done" => WhyObj(Doc, ~dedup) = ""
Complete == ph = "done" => WhyParts(Doc, its, "Table", tex, plunger, FALSE, pf[2], pf[1], KD, ~dedup /\ ~tex) = ""
(* while it is written, faces name what is there                            *)
Running == \A i \in DOMAIN objects : Within(objects[i].fv, objects[i].v) /\ (i > 1 => objects[i].v[1] = objects[i - 1].v[2] + 1)
Ends == <>(ph = "done" \/ ph = "items")
Grows == [][/\ Len(objects') >= Len(objects) /\ SubSeq(objects', 1, Len(objects)) = objects
            /\ SubSeq(defs', 1, Len(defs)) = defs /\ \A p \in DOMAIN files : p \in DOMAIN files' /\ files'[p] = files[p]]_vars
=============================================================================
