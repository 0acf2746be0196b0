------------------------------- MODULE Parts -------------------------------
(* Which parts of a table an exported 3D model consists of.                 *)
(*                                                                          *)
(* An item is a record: kind, name, layer (no layer: ""), vis and vis2 (its *)
(* two visibility flags, or visible and a bracket or rubber), sub (its type *)
(* or shape), geo ("ok": its outline gives a surface, "none": it cannot,    *)
(* "any": it is degenerate and may or may not), on (further flags), img and *)
(* img2 (images it names), pic and pic2 (the table's image of that name, "" *)
(* if it has none with data), mat and mat2 (materials it names), pf (it is  *)
(* named as the playfield is), gi (it is named as general illumination is). *)
(*   wall     vis, img, mat top; vis2, img2, mat2 sides                     *)
(*   flipper  vis2 has a rubber, of mat2                                    *)
(*   spinner, gate  vis2 has a bracket                                      *)
(*   bumper   on = base (mat), socket (mat), ring, cap (mat2)               *)
(*   light    on = on the backglass, has a bulb mesh, is a bulb             *)
(*   decal    on = on the backglass         ball  on = its image is a decal *)
EXTENDS Integers, Sequences, SequencesExt

Solid(it) == it.sub \in {"builtin", "mesh"}
(* before 10.8 the playfield mesh was shown whatever its flag *)
PrimVisible(it, old) == it.vis \/ (old /\ it.pf)
BulbMesh(it, old) == it.on[2] /\ (old => (it.on[3] /\ it.vis))
If(c, s) == IF c THEN s ELSE << >>
P(n, v, i) == <<[n |-> n, v |-> v, i |-> i, c |-> ""]>>
Q(n, v, i, c) == <<[n |-> n, v |-> v, i |-> i, c |-> c]>>
Geo(it) == it.geo # "none"
Flat1(it) == it.sub \in {"Flat", "Unknown"}

(* glTF: parts [n |-> name, v |-> shown when opened, i |-> picture, c |->   *)
(* colour, "" if it follows from more than the item's material]; inv:       *)
(* invisible items too; pfpic: the picture of the playfield                 *)
GltfParts(it, inv, old, pfpic) ==
  LET show(v) == inv \/ v
      n == it.name
      c == IF it.img = "" THEN it.matc ELSE ""
      c2 == IF it.img2 = "" THEN it.matc2 ELSE "" IN
  CASE it.kind = "primitive" -> If(show(PrimVisible(it, old)) /\ Solid(it), Q(n, PrimVisible(it, old), IF it.pf THEN pfpic ELSE it.pic, IF it.pf THEN "" ELSE c))
    [] it.kind = "wall" -> If(Geo(it), If(show(it.vis), Q(n \o "Top", it.vis, it.pic, c)) \o If(show(it.vis2), Q(n \o "Side", it.vis2, it.pic2, c2)))
    [] it.kind = "ramp" -> If(show(it.vis) /\ Geo(it), Q(n, it.vis, it.pic, c))
    [] it.kind = "flasher" -> If(show(it.vis) /\ Geo(it), P(n, it.vis, it.pic))
    [] it.kind = "rubber" -> If(show(it.vis) /\ Geo(it), Q(n, it.vis, "", it.matc))
    [] it.kind = "hittarget" -> If(show(it.vis), Q(n, it.vis, it.pic, c))
    [] it.kind = "trigger" -> If(show(it.vis) /\ it.sub # "None", Q(n, it.vis, "", it.matc))
    [] it.kind = "flipper" -> If(show(it.vis), Q(n \o "Base", it.vis, it.pic, c) \o If(it.vis2, Q(n \o "Rubber", it.vis, "", it.matc2)))
    [] it.kind = "bumper" -> If(it.on[1], Q(n \o "Base", TRUE, "", it.matc)) \o If(it.on[2], Q(n \o "Socket", TRUE, "", it.matc))
                             \o If(it.on[3], P(n \o "Ring", TRUE, "")) \o If(it.on[4], Q(n \o "Cap", TRUE, "", it.matc2))
    [] it.kind = "spinner" -> If(show(it.vis), If(it.vis2, P(n \o "Bracket", it.vis, "")) \o Q(n \o "Plate", it.vis, it.pic, c))
    [] it.kind = "gate" -> If(show(it.vis), If(it.vis2, Q(n \o "Bracket", it.vis, "", it.matc)) \o Q(n \o "Wire", it.vis, "", it.matc))
    [] it.kind = "light" -> If(~it.on[1] /\ show(it.vis),
                               If(BulbMesh(it, old), P(n \o "_bulb", it.vis, "") \o P(n \o "_socket", it.vis, ""))
                               \o If(Geo(it), P(n \o "_insert", it.vis, IF it.on[3] THEN "" ELSE it.pic)))
    [] it.kind = "plunger" -> If(show(it.vis),
                                 IF Flat1(it) THEN Q(n \o "Flat", it.vis, it.pic, c)
                                 ELSE Q(n \o "Rod", it.vis, it.pic, c) \o Q(n \o "Spring", it.vis, it.pic, c)
                                      \o Q(n \o "Ring", it.vis, it.pic, c) \o If(Geo(it), Q(n \o "Tip", it.vis, it.pic, c)))
    [] it.kind = "kicker" -> If(it.sub # "Invisible", P(n \o "Plate", TRUE, "") \o P(n \o "Kicker", TRUE, ""))
    [] it.kind = "decal" -> If(it.sub = "Image" /\ it.img # "" /\ ~it.on[1], P(n, TRUE, it.pic))
    [] it.kind = "ball" -> P(n, TRUE, IF it.on[1] THEN it.pic ELSE "")
    [] OTHER -> << >>
(* the point lights *)
GltfLight(it, inv, old) == If(it.kind = "light" /\ it.gi /\ ~it.on[1] /\ (inv \/ it.vis), <<it.name>>)
(* the node of the layer an item lies on *)
LayerNode(it) == IF it.lay = "" THEN "" ELSE "Layer_" \o it.lay
IsPlayfield(it, inv, old) == it.kind = "primitive" /\ it.pf /\ GltfParts(it, inv, old, "") # << >>

(* OBJ: [n |-> name, m |-> material ("-": that of the object before), i |-> *)
(* picture]; tex: images are extracted, plunger: plungers too.              *)
(* vpinball exports flippers, gates, spinners and targets shown or not.     *)
O(n, m, i) == <<[n |-> n, m |-> m, i |-> i]>>
ObjParts(it, tex, plunger, old, pfpic, pfmat) ==
  LET n == it.name IN
  CASE it.kind = "primitive" -> If(PrimVisible(it, old) /\ Solid(it), IF it.pf THEN O(n, pfmat, pfpic) ELSE O(n, it.mat, it.pic))
    [] it.kind = "wall" -> If(Geo(it), IF it.vis /\ it.vis2
                                       THEN IF tex THEN O(n \o "Side", it.mat2, it.pic2) \o O(n \o "Top", it.mat, it.pic) ELSE O(n, it.mat, "")
                                       ELSE IF it.vis THEN O(n, IF it.img = "" THEN "none" ELSE it.img, it.pic)
                                       ELSE If(it.vis2, O(n, it.mat2, it.pic2)))
    [] it.kind = "ramp" -> If(it.vis /\ Geo(it), O(n, it.mat, it.pic))
    [] it.kind = "rubber" -> If(it.vis /\ Geo(it), O(n, it.mat, ""))
    [] it.kind = "hittarget" -> O(n, it.mat, it.pic)
    [] it.kind = "trigger" -> If(it.vis /\ it.sub # "None", O(n, it.mat, ""))
    [] it.kind = "flipper" -> O(n \o "Base", it.mat, it.pic) \o If(it.vis2, O(n \o "Rubber", it.mat2, ""))
    [] it.kind = "bumper" -> If(it.on[1], O(n \o "Base", it.mat, "")) \o If(it.on[3], O(n \o "Ring", "-", ""))
                             \o If(it.on[2], O(n \o "Skirt", it.mat, "")) \o If(it.on[4], O(n \o "Cap", it.mat2, ""))
    [] it.kind = "spinner" -> If(it.vis2, O(n \o "Bracket", it.mat, "")) \o O(n \o "Plate", "-", "")
    [] it.kind = "gate" -> If(it.vis2, O(n \o "Bracket", it.mat, "")) \o O(n \o "Wire", it.mat, "")
    [] it.kind = "plunger" -> LET m == IF it.mat = "" THEN "-" ELSE it.mat IN
                              If(plunger /\ it.vis,
                                 IF Flat1(it) THEN O(n \o "Flat", m, it.pic)
                                 ELSE O(n \o "Rod", m, it.pic) \o O(n \o "Spring", m, it.pic) \o O(n \o "Ring", m, it.pic) \o If(Geo(it), O(n \o "Tip", m, it.pic)))
    [] it.kind = "kicker" -> If(it.sub # "Invisible", O(n \o "Plate", it.mat, "") \o O(n, it.mat, ""))
    [] OTHER -> << >>

Cat(F(_), s) == FlattenSeq([i \in DOMAIN s |-> F(s[i])])
Sure(s) == SelectSeq(s, LAMBDA it : it.geo # "any")
CountIn(x, s) == Len(SelectSeq(s, LAMBDA y : y = x))
(* got holds everything in must, and nothing beyond may *)
Exactly(got, must, may) ==
  /\ ToSet(must) \subseteq ToSet(got) /\ ToSet(got) \subseteq ToSet(may)
  /\ \A x \in ToSet(got) : LET g == CountIn(x, got) IN CountIn(x, must) <= g /\ g <= CountIn(x, may)

Painted(s) == [i \in DOMAIN s |-> [n |-> s[i].n, v |-> s[i].v, i |-> s[i].i]]
(* parts of a name only one part has *)
Colours(got, want) == \A i \in DOMAIN want : want[i].c # "" =>
  LET same == SelectSeq(got, LAMBDA q : q.n = want[i].n) IN Len(same) = 1 => same[1].c = want[i].c
(* the whole scene *)
GltfWant(its, inv, old, pfpic) ==
  Cat(LAMBDA it : GltfParts(it, inv, old, pfpic), its)
  \o If(~\E i \in DOMAIN its : IsPlayfield(its[i], inv, old), P("playfield_mesh", TRUE, pfpic))
(* [n |-> name, l |-> layer node] of parts and lights *)
GltfLayers(its, inv, old, pfpic) ==
  Cat(LAMBDA it : LET ps == GltfParts(it, inv, old, pfpic) IN [i \in DOMAIN ps |-> [n |-> ps[i].n, l |-> LayerNode(it)]], its)
  \o Cat(LAMBDA it : If(GltfLight(it, inv, old) # << >>, <<[n |-> it.name \o "_light", l |-> LayerNode(it)]>>), its)
Layered(got, want) == \A i \in DOMAIN want :
  LET same == SelectSeq(got, LAMBDA q : q.n = want[i].n) IN Len(same) = 1 => same[1].l = want[i].l
GltfLights(its, inv, old) == <<"TableLight0", "TableLight1">> \o Cat(LAMBDA it : If(GltfLight(it, inv, old) # << >>, <<it.name \o "_light">>), its)
(* [n |-> name, v |-> shown] of the point lights *)
Glow(its, inv, old) == <<[n |-> "TableLight0", v |-> TRUE], [n |-> "TableLight1", v |-> TRUE]>>
  \o Cat(LAMBDA it : If(GltfLight(it, inv, old) # << >>, <<[n |-> it.name \o "_light", v |-> it.vis]>>), its)
ObjWant(its, table, tex, plunger, old, pfpic, pfmat) ==
  O(table, pfmat, pfpic) \o Cat(LAMBDA it : ObjParts(it, tex, plunger, old, pfpic, pfmat), its)
=============================================================================
