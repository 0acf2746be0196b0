------------------------------- MODULE ObjDoc -------------------------------
(* An OBJ model and its material library.                                   *)
(*                                                                          *)
(* A document is [objects, defs]: an object has its name n, the numbers of  *)
(* its first and last vertex v, texture coordinate vt and normal vn, the    *)
(* least and largest number its faces name (fv, ft, fn), how many faces     *)
(* there are and the materials m its faces are drawn with; a definition has *)
(* the material's name n, its colour kd and what its maps show: "=" and the *)
(* name of an image of the table, or what is wrong.                         *)
EXTENDS Integers, Sequences, SequencesExt, Parts

Within(face, own) == own[1] <= face[1] /\ face[1] <= face[2] /\ face[2] <= own[2]
Defs(d, n) == SelectSeq(d.defs, LAMBDA x : x.n = n)
(* many: duplicate definitions were asked for                               *)
WhyObj(d, many) ==
  CASE \E i \in DOMAIN d.objects : d.objects[i].v[2] < d.objects[i].v[1] \/ d.objects[i].faces < 1 -> "object without geometry"
    [] \E i \in DOMAIN d.objects : ~Within(d.objects[i].fv, d.objects[i].v) -> "face names another object's vertices"
    [] \E i \in DOMAIN d.objects : ~Within(d.objects[i].ft, d.objects[i].vt) -> "face names another object's texture coordinates"
    [] \E i \in DOMAIN d.objects : ~Within(d.objects[i].fn, d.objects[i].vn) -> "face names another object's normals"
    [] \E i \in DOMAIN d.objects : Len(d.objects[i].m) # 1 \/ d.objects[i].m[1] = "-" -> "object without material"
    [] \E i \in DOMAIN d.objects : Defs(d, d.objects[i].m[1]) = << >> -> "material not defined"
    [] ~many /\ \E i \in DOMAIN d.objects : Len(Defs(d, d.objects[i].m[1])) > 1 -> "material defined twice"
    [] \E i \in DOMAIN d.defs : \E j \in DOMAIN d.defs[i].maps : SubSeq(d.defs[i].maps[j], 1, 1) # "=" -> "map"
    [] OTHER -> ""

(* what is shown: the parts in their order, with picture and colour; a part *)
(* of an inherited material ("-") has that of the object before             *)
Picture(def) == IF def.maps = << >> THEN "" ELSE def.maps[1]
Agree(def) == \A j \in DOMAIN def.maps : def.maps[j] = def.maps[1]
Shown(d) == [i \in DOMAIN d.objects |-> LET x == Defs(d, d.objects[i].m[1]) IN [n |-> d.objects[i].n, i |-> Picture(x[1]), c |-> x[1].kd]]
Colour(kd, m) == IF m \in DOMAIN kd THEN kd[m] ELSE "ffffff"
Wanted(parts, kd, tex) ==
  LET w[i \in 0..Len(parts)] == IF i = 0 THEN [n |-> "", i |-> "", c |-> ""]
        ELSE IF parts[i].m = "-" THEN [w[i - 1] EXCEPT !.n = parts[i].n]
        ELSE [n |-> parts[i].n, i |-> IF tex /\ parts[i].i # "" THEN "=" \o parts[i].i ELSE "", c |-> Colour(kd, parts[i].m)] IN
  [i \in DOMAIN parts |-> w[i]]
Names(s) == [i \in DOMAIN s |-> s[i].n]
(* loose: definitions of one name may differ (as vpinball's do)             *)
WhyParts(d, its, table, tex, plunger, old, pfpic, pfmat, kd, loose) ==
  LET want == ObjWant(its, table, tex, plunger, old, pfpic, pfmat)
      must == ObjWant(Sure(its), table, tex, plunger, old, pfpic, pfmat)
      got == Shown(d)
      w == Wanted(want, kd, tex)
      sure == Len(Sure(its)) = Len(its) IN
  CASE sure /\ Names(got) # Names(want) -> "parts"
    [] ~Exactly(Names(got), Names(must), Names(want)) -> "parts"
    [] ~loose /\ \E i \in DOMAIN d.defs : ~Agree(d.defs[i]) \/ \E j \in DOMAIN d.defs : d.defs[i].n = d.defs[j].n /\ d.defs[i] # d.defs[j] -> "definitions of one name differ"
    [] ~loose /\ sure /\ got # w /\ \E i \in DOMAIN got : got[i].i # w[i].i -> "pictures of parts"
    [] ~loose /\ sure /\ got # w -> "colours of parts"
    [] loose /\ sure /\ \E i \in DOMAIN w : ~\E j \in DOMAIN d.defs : d.defs[j].n = d.objects[i].m[1] /\ d.defs[j].kd = w[i].c -> "colours of parts"
    [] ~loose /\ ~sure /\ \E i \in DOMAIN want : want[i].m # "-" /\
         LET same == SelectSeq(got, LAMBDA x : x.n = want[i].n) IN Len(same) = 1 /\ CountIn(want[i].n, Names(want)) = 1 /\ same[1] # w[i] -> "pictures and colours of parts"
    [] OTHER -> ""
=============================================================================
