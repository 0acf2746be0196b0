------------------------------- MODULE Looks -------------------------------
(* How the parts of an exported scene look, and how its lights shine.       *)
(*                                                                          *)
(* A table t: mats (name -> [c colour, oa its opacity counts, op opacity,   *)
(* metal, shine, gloss the colour of its shine]; numbers are per mille), clear (the images with            *)
(* transparency), old (before 10.8), pfmat, pfpic, reflect (the playfield), *)
(* lc (colour of its lights, three numbers to 255), lscale, gscale, lrange. *)
(* An item also has: below (light from below it stops, -1: not said), rgb   *)
(* (its own colour), a (its own alpha, per cent), power (tenths), reach     *)
(* (vpu, how far its furthest control point or its falloff is).             *)
(* A look: c colour, a opacity, m metal, r roughness (-1: not decided), b   *)
(* blended with what is behind it, t light it lets through.                 *)
EXTENDS Parts

NoLook == [c |-> "none", a |-> 0, m |-> FALSE, r |-> -1, b |-> FALSE, t |-> 0]
Known(t, n) == n \in DOMAIN t.mats
Glass(m) == m.oa /\ m.op < 999
Lit(below) == below >= 0 /\ below < 1000
(* a part of material n showing picture pic; a picture lets less light through *)
Look(t, n, pic, below) ==
  LET through == IF ~Lit(below) THEN 0 ELSE IF pic # "" THEN ((1000 - below) * 9) \div 100 ELSE ((1000 - below) * 3) \div 10
      clear == pic # "" /\ pic \in ToSet(t.clear) IN
  IF Known(t, n)
  THEN LET m == t.mats[n] IN
       [c |-> m.c, a |-> IF m.oa THEN m.op ELSE 1000, m |-> m.metal, r |-> 1000 - m.shine, b |-> Glass(m) \/ clear, t |-> through]
  ELSE IF pic = "" /\ ~Lit(below) THEN NoLook
  ELSE [c |-> "ffffff", a |-> 1000, m |-> FALSE, r |-> 500, b |-> clear, t |-> through]
Tint(c, a) == [c |-> c, a |-> a, m |-> FALSE, r |-> -1, b |-> TRUE, t |-> 0]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* the picture of a playfield is as smooth as the playfield reflects *)
Field(t, below) ==
  LET l == Look(t, t.pfmat, t.pfpic, below) IN
  IF l = NoLook \/ t.pfpic = "" THEN [l EXCEPT !.r = -1]
  ELSE IF t.reflect > 100 THEN [l EXCEPT !.r = Clamp(200 - ((t.reflect * 17) \div 100), 30, 200)] ELSE l
(* before 10.8 a playfield, and what is opaque, let no light through *)
Below(t, it) ==
  IF it.kind = "wall" THEN it.below
  ELSE IF it.kind # "primitive" THEN -1
  ELSE IF t.old /\ (it.pf \/ (Known(t, it.mat) /\ (~t.mats[it.mat].oa \/ t.mats[it.mat].op = 1000))) THEN 1000
  ELSE it.below
Dressed(t, it) ==
  LET d(suffix, look) == <<[n |-> it.name \o suffix, l |-> look]>>
      b == Below(t, it)
      p == Look(t, it.mat, it.pic, b)      \* its material and image
      q == Look(t, it.mat, "", b)          \* its material
      q2 == Look(t, it.mat2, "", b) IN
  CASE it.kind = "primitive" -> d("", IF it.pf THEN Field(t, b) ELSE p)
    [] it.kind = "wall" -> d("Top", p) \o d("Side", Look(t, it.mat2, it.pic2, b))
    [] it.kind \in {"ramp", "hittarget", "decal"} -> d("", p)
    [] it.kind \in {"rubber", "trigger"} -> d("", q)
    [] it.kind = "gate" -> d("Bracket", q) \o d("Wire", q)
    [] it.kind = "flipper" -> d("Base", p) \o d("Rubber", q2)
    [] it.kind = "bumper" -> d("Base", q) \o d("Socket", q) \o d("Cap", q2)
    [] it.kind = "spinner" -> d("Plate", p)
    [] it.kind = "plunger" -> d("Flat", p) \o d("Rod", p) \o d("Spring", p) \o d("Ring", p) \o d("Tip", p)
    [] it.kind = "flasher" -> d("", Tint(it.rgb, it.a * 10))
    [] it.kind = "light" -> d("_insert", Tint(it.rgb, 300)) \o d("_bulb", Tint("ffffff", 200)) \o d("_socket", Tint("181818", 1000))
    [] it.kind = "ball" -> d("", [c |-> IF it.rgb = "ffffff" THEN "cccccc" ELSE it.rgb, a |-> 1000, m |-> TRUE, r |-> 150, b |-> FALSE, t |-> 0])
    [] OTHER -> << >>
(* a playfield that is not shown is no playfield *)
LooksWant(t) ==
  LET shown == SelectSeq(t.its, LAMBDA it : (it.kind = "primitive" /\ it.pf) => IsPlayfield(it, t.inv, t.old)) IN
  Cat(LAMBDA it : Dressed(t, it), shown)
  \o If(~\E i \in DOMAIN shown : shown[i].kind = "primitive" /\ shown[i].pf, <<[n |-> "playfield_mesh", l |-> Field(t, -1)]>>)

Near(x, y, e) == x - y <= e /\ y - x <= e
Alike(got, want) ==
  /\ got.c = want.c /\ got.m = want.m /\ got.b = want.b
  /\ Near(got.a, want.a, 1) /\ (want.r = -1 \/ Near(got.r, want.r, 1)) /\ Near(got.t, want.t, 1)
(* what is unlike it should be *)
Unlike(got, want) ==
  CASE want = NoLook /\ got = NoLook -> ""
    [] want = NoLook -> "a look of nothing"
    [] got = NoLook -> "no look"
    [] got.c # want.c -> "colour"
    [] ~Near(got.a, want.a, 1) -> "opacity"
    [] got.b # want.b -> "blending"
    [] got.m # want.m -> "metal"
    [] ~Near(got.t, want.t, 1) -> "light let through"
    [] want.r # -1 /\ ~Near(got.r, want.r, 1) -> "roughness"
    [] OTHER -> ""
(* the parts of a name only one part has *)
LooksWhy(got, want) ==
  LET ws == {w \in ToSet(want) : LET g == SelectSeq(got, LAMBDA x : x.n = w.n) IN Len(g) = 1 /\ Unlike(g[1].l, w.l) # ""} IN
  IF ws = {} THEN "" ELSE LET w == CHOOSE w \in ws : TRUE IN
    Unlike(SelectSeq(got, LAMBDA x : x.n = w.n)[1].l, w.l) \o ": " \o w.n

(* Models: the colours kd and ks and the opacity d of a definition         *)
ModelLook(t, n) ==
  IF ~Known(t, n) THEN [kd |-> "ffffff", ks |-> "000000", d |-> 1000]
  ELSE LET m == t.mats[n] IN [kd |-> m.c, ks |-> IF m.metal THEN m.c ELSE m.gloss, d |-> IF m.oa THEN m.op ELSE 1000]
ModelWhy(t) ==
  LET want == ObjWant(t.its, t.table, t.tex, t.plunger, t.old, t.pfpic, t.pfmat)
      bad(w) ==
        LET g == SelectSeq(t.objects, LAMBDA x : x.n = w.n)
            l == ModelLook(t, w.m) IN
        IF w.m = "-" \/ Len(g) # 1 \/ Len(SelectSeq(want, LAMBDA x : x.n = w.n)) # 1 THEN ""
        ELSE LET ds == SelectSeq(t.defs, LAMBDA x : x.n = g[1].m[1]) IN
          CASE ds = << >> -> "no look"
            [] \E i \in DOMAIN ds : ds[i].kd # l.kd -> "colour"
            [] \E i \in DOMAIN ds : ds[i].ks # l.ks -> "colour of the shine"
            [] \E i \in DOMAIN ds : ~Near(ds[i].d, l.d, 1) -> "opacity"
            [] OTHER -> ""
      ws == {w \in ToSet(want) : bad(w) # ""} IN
  IF ws = {} THEN "" ELSE LET w == CHOOSE w \in ws : TRUE IN "model: " \o bad(w) \o ": " \o w.n

(* Lights: [n |-> name, c |-> colour, i |-> strength per mille, d |-> reach *)
(* in vpu]. The two of the table shine as its scales and colour say, and no *)
(* light reaches further than 100 m (185270 vpu).                           *)
Far == 185270
Lamp(it) == [n |-> it.name, c |-> it.rgb, i |-> Clamp(it.power * 10, 10, 10000), d |-> it.reach]
TableLamp(t, n) == LET x == ((t.lscale * t.gscale) \div 100) * (t.lc[1] + t.lc[2] + t.lc[3]) IN
  [n |-> n, c |-> t.lchex, i |-> ((x \div 765) * 100) + (((x % 765) * 100) \div 765), d |-> IF t.lrange > Far THEN Far ELSE t.lrange]
Lamps(t, inv) == <<TableLamp(t, "TableLight0"), TableLamp(t, "TableLight1")>> \o Cat(LAMBDA it : If(GltfLight(it, inv, t.old) # << >>, <<Lamp(it)>>), t.its)
LampsWhy(got, want) ==
  LET one(w) == SelectSeq(got, LAMBDA x : x.n = w.n)
      bad(f(_, _)) == \E i \in DOMAIN want : Len(one(want[i])) = 1 /\ ~f(one(want[i])[1], want[i]) IN
  CASE bad(LAMBDA g, w : g.c = w.c) -> "colour of a light"
    [] bad(LAMBDA g, w : Near(g.i, w.i, 1 + (w.i \div 200))) -> "strength of a light"
    [] bad(LAMBDA g, w : Near(g.d, w.d, 1 + (w.d \div 500))) -> "reach of a light"
    [] OTHER -> ""
=============================================================================
