----------------------------- MODULE Placement ------------------------------
(* Where a 3D export puts the parts of a table. Lengths are whole numbers of *)
(* sixteenths of a table unit; angles are quarter turns where a formula is    *)
(* exact.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
\* the axes of the two formats: x to the right and y towards the player lie in the table, z points up
World(fmt, p) == IF fmt = "gltf" THEN <<p[1], p[3], p[2]>> ELSE <<p[1], p[2], -p[3]>>
\* both mirror space, so both turn the corners of a triangle round
Outside(f) == <<f[3], f[2], f[1]>>
Turned(f) == {f, <<f[2], f[3], f[1]>>, <<f[3], f[1], f[2]>>}

\* ---- turning (quarter turns), scaling and moving a point
Cos(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> -1 [] OTHER -> 0
Sin(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> -1 [] OTHER -> 0
RotX(q, p) == <<p[1], p[2] * Cos(q) - p[3] * Sin(q), p[2] * Sin(q) + p[3] * Cos(q)>>
RotY(q, p) == <<p[1] * Cos(q) + p[3] * Sin(q), p[2], p[3] * Cos(q) - p[1] * Sin(q)>>
RotZ(q, p) == <<p[1] * Cos(q) - p[2] * Sin(q), p[1] * Sin(q) + p[2] * Cos(q), p[3]>>
Plus(p, d) == <<p[1] + d[1], p[2] + d[2], p[3] + d[3]>>
Minus(p, d) == <<p[1] - d[1], p[2] - d[2], p[3] - d[3]>>
Times(p, s) == <<p[1] * s[1], p[2] * s[2], p[3] * s[3]>>

\* ---- a primitive: its mesh is scaled, shifted, turned (about z, y, x, then its own z, y, x) and put in its place
Turns(r, p) == RotX(r[7], RotY(r[8], RotZ(r[9], RotX(r[1], RotY(r[2], RotZ(r[3], p))))))
PutPoint(it, p) == Plus(Turns(it.rot, Plus(Times(p, it.size), <<it.rot[4], it.rot[5], it.rot[6]>>)), it.pos)
PutNormal(it, n) == Turns(it.rot, n)

\* ---- what happens to every point of an item when one thing about it changes: out = turn(scale(p - at)) + at + by
Same == [at |-> <<0, 0, 0>>, s |-> <<1, 1, 1>>, q |-> 0, ax |-> "z", by |-> <<0, 0, 0>>]
Rot(ax, q, p) == CASE ax = "x" -> RotX(q, p) [] ax = "y" -> RotY(q, p) [] OTHER -> RotZ(q, p)
Image(m, p) == Plus(Plus(Rot(m.ax, m.q, Times(Minus(p, m.at), m.s)), m.at), m.by)
ImageN(m, n) == Rot(m.ax, m.q, n)

OnSurface == {"bumper", "spinner", "plunger", "gate", "trigger", "kicker", "flipper", "light", "decal"}
WireTriggers == {"WireA", "WireB", "WireC", "WireD", "Inder"}
Round == {"Star", "Button"}
\* t.w: the change; t.a, t.b: the value before and after; t.c: the item's centre; t.h: the height it stands at
Change(t, fmt, part) ==
  LET k == t.kind
      d == t.b - t.a
      at == <<t.c[1], t.c[2], t.h>>
      ratio == t.b \div t.a
  IN CASE t.w = "shift" -> [Same EXCEPT !.by = <<t.d[1], t.d[2], t.d[3]>>]
       [] t.w = "surface" -> IF k \in OnSurface THEN [Same EXCEPT !.by = <<0, 0, d>>] ELSE Same
       [] t.w = "up" -> IF k = "light" /\ part = "_insert" THEN Same ELSE [Same EXCEPT !.by = <<0, 0, d>>]
       [] t.w = "turn" -> IF k = "kicker" /\ (part = "Plate" \/ t.sub \in {"Hole", "HoleSimple"}) THEN Same ELSE [Same EXCEPT !.at = at, !.q = t.b - t.a]
       [] t.w = "turnx" -> [Same EXCEPT !.at = at, !.q = d, !.ax = "x"]
       [] t.w = "turny" -> [Same EXCEPT !.at = at, !.q = d, !.ax = "y"]
       [] t.w = "wide" ->
            IF k = "bumper" THEN [Same EXCEPT !.at = at, !.s = <<ratio, ratio, 1>>]
            ELSE IF k = "trigger" /\ t.sub \in WireTriggers THEN Same
            ELSE IF k = "light" /\ part = "_insert" THEN Same                  \* its outline
            ELSE IF k = "gate" /\ fmt = "obj" /\ part = "Wire" THEN Same       \* as the program this format is known from writes it
            ELSE [Same EXCEPT !.at = IF k = "trigger" /\ t.sub = "Button" THEN Plus(at, <<0, 0, 80>>) ELSE at, !.s = <<ratio, ratio, ratio>>]
       [] t.w = "x" -> IF k = "trigger" /\ t.sub \in Round THEN Same ELSE [Same EXCEPT !.at = at, !.s = <<ratio, 1, 1>>]
       [] t.w = "y" -> IF k = "trigger" /\ t.sub \in Round THEN Same ELSE [Same EXCEPT !.at = at, !.s = <<1, ratio, 1>>]
       [] t.w = "z" -> [Same EXCEPT !.at = IF k = "bumper" /\ part \in {"Socket", "Skirt"} THEN Plus(at, <<0, 0, 80>>) ELSE at, !.s = <<1, 1, ratio>>]
       [] OTHER -> Same
\* the height of what an item stands on: the first wall or ramp of that name (case aside); ramps rise evenly along their path
Dist(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])                        \* the legs are parallel to the axes
Between(x, a, b) == IF x < Min2(a, b) THEN Min2(a, b) ELSE IF x > Max2(a, b) THEN Max2(a, b) ELSE x
OnLeg(p, a, b) == <<Between(p[1], a[1], b[1]), Between(p[2], a[2], b[2])>>
RECURSIVE Before(_, _)
Before(pts, k) == IF k <= 1 THEN 0 ELSE Dist(pts[k - 1], pts[k]) + Before(pts, k - 1)
RampHeight(s, p) ==
  LET legs == 1..Len(s.pts) - 1
      Foot(k) == OnLeg(p, s.pts[k], s.pts[k + 1])
      k == CHOOSE k \in legs : \A j \in legs : Dist(p, Foot(k)) <= Dist(p, Foot(j))
  IN 16 * s.lo + (16 * (s.top - s.lo) * (Before(s.pts, k) + Dist(s.pts[k], Foot(k)))) \div Before(s.pts, Len(s.pts))
HeightOn(list, on) ==
  LET same == {k \in 1..Len(list) : list[k].name = on.name}
      first == list[CHOOSE k \in same : \A j \in same : k <= j]
  IN IF on.name = "" \/ same = {} THEN 0 ELSE IF first.kind = "wall" THEN 16 * first.top ELSE RampHeight(first, on.p)
Formats == {"gltf", "obj"}
SameParts(x, y) == /\ Len(x) = Len(y)
                   /\ \A k \in 1..Len(x) : x[k].o = y[k].o /\ x[k].s = y[k].s /\ x[k].nv = y[k].nv /\ x[k].nf = y[k].nf /\ x[k].f = y[k].f
\* pictures lie on the table, not on the item
FlatPicture == {"wall", "ramp", "flasher", "light"}
Settled(t) == LET a == HeightOn(t.surfaces, t.on[1])
                  b == HeightOn(t.surfaces, t.on[2])
              IN IF t.w = "surface" THEN [t EXCEPT !.a = a, !.b = b, !.tol = @ + 1] ELSE [t EXCEPT !.h = @ + a]
WhyMoved(j, fmt) ==
  LET t == Settled(j)
      b == t.base[fmt]
      v == t.then[fmt]
      OK(p, q) == LET m == IF p.o THEN Change(t, fmt, p.s) ELSE Same IN
        \A k \in 1..Len(p.v) : Near(World(fmt, q.v[k]), Image(m, World(fmt, p.v[k])), IF m.s = <<1, 1, 1>> THEN t.tol ELSE t.tol * 3)
      Normals(p, q) == LET m == IF p.o THEN Change(t, fmt, p.s) ELSE Same IN
        m.s[1] = m.s[2] /\ m.s[2] = m.s[3] /\ t.tol < 16 => \A k \in 1..Len(p.m) : Near(World(fmt, q.m[k]), ImageN(m, World(fmt, p.m[k])), 12)
      Pictures(p, q) == (p.o /\ t.kind \in FlatPicture) \/ \A k \in 1..Len(p.t) : Near(p.t[k], q.t[k], 2)
  IN IF ~SameParts(b, v) THEN "other parts"
     ELSE IF \E k \in 1..Len(b) : ~OK(b[k], v[k]) THEN "place of " \o (LET k == CHOOSE k \in 1..Len(b) : ~OK(b[k], v[k]) IN IF b[k].o THEN b[k].s ELSE "another item")
     ELSE IF \E k \in 1..Len(b) : ~Normals(b[k], v[k]) THEN "normals"
     ELSE IF \E k \in 1..Len(b) : ~Pictures(b[k], v[k]) THEN "place on the picture"
     ELSE ""
\* lights of the scene go along
WhyLights(j) ==
  LET t == Settled(j)
      b == t.base.lights
      v == t.then.lights
      M(p) == IF p.o THEN Change(t, "gltf", "light") ELSE Same
  IN IF Len(b) # Len(v) THEN "other lights"
     ELSE IF \E k \in 1..Len(b) : b[k].n # v[k].n \/ (t.w # "wide" /\ ~Near(World("gltf", v[k].v[1]), Image(M(b[k]), World("gltf", b[k].v[1])), t.tol)) THEN "place of a light" ELSE ""

\* ---- other units of length: one table unit is 0.53975 mm
WhyUnits(t) ==
  LET By(q, p, tol) == \A k \in 1..3 : Abs(q[k] * 4000 - p[k] * 2159) <= tol * 4000
      Parts(fmt) == LET b == t.base[fmt]
                        v == t.then[fmt]
                    IN IF ~SameParts(b, v) THEN fmt \o " other parts"
                       ELSE IF \E k \in 1..Len(b) : \E i \in 1..Len(b[k].v) : ~By(v[k].v[i], b[k].v[i], 2) THEN fmt \o " lengths"
                       ELSE IF \E k \in 1..Len(b) : \E i \in 1..Len(b[k].m) : ~Near(v[k].m[i], b[k].m[i], 2) THEN fmt \o " normals"
                       ELSE IF \E k \in 1..Len(b) : \E i \in 1..Len(b[k].t) : ~Near(v[k].t[i], b[k].t[i], 2) THEN fmt \o " place on the picture"
                       ELSE ""
      lb == t.base.lights
      lv == t.then.lights
  IN IF Parts("gltf") # "" THEN Parts("gltf") ELSE IF Parts("obj") # "" THEN Parts("obj")
     ELSE IF Len(lb) # Len(lv) \/ \E k \in 1..Len(lb) : ~By(lv[k].v[1], lb[k].v[1], 2) THEN "place of a light" ELSE ""

\* ---- the two formats agree
Twin == [Socket |-> "Skirt", Kicker |-> ""]
TwinOf(s) == IF s \in DOMAIN Twin THEN Twin[s] ELSE s
WhyAgree(t) ==
  LET g == t.base.gltf
      o == t.base.obj
      Others(p) == {q \in {o[k] : k \in 1..Len(o)} : q.i = p.i /\ q.s = TwinOf(p.s)}
      At(p, k) == World("gltf", p.v[k])
      Want(p, k) == IF p.wire THEN LET h == p.c[3] + HeightOn(t.surfaces, p.on)
                                       a == At(p, k)
                                   IN <<p.c[1] + (a[1] - p.c[1]) \div p.len, p.c[2] + (a[2] - p.c[2]) \div p.len, h + (a[3] - h) \div p.len>>
                    ELSE At(p, k)
      Pair(p, q) == IF p.nv # q.nv \/ p.nf # q.nf THEN "other corners"
                    ELSE IF \E k \in 1..Len(p.v) : ~Near(Want(p, k), World("obj", q.v[k]), 2) THEN "other places"
                    ELSE IF \E k \in 1..Len(p.m) : ~Near(World("gltf", p.m[k]), World("obj", q.m[k]), 4) THEN "other normals"
                    ELSE IF \E k \in 1..Len(p.t) : ~Near(p.t[k], <<q.t[k][1], 1000 - q.t[k][2]>>, 2) THEN "other place on the picture"
                    ELSE IF \E k \in 1..Len(p.f) : q.f[k] \notin Turned(p.f[k]) THEN "other triangles"
                    ELSE ""
      W(p) == IF Cardinality(Others(p)) # 1 THEN "" ELSE LET w == Pair(p, CHOOSE q \in Others(p) : TRUE) IN IF w = "" THEN "" ELSE p.k \o p.s \o ": " \o w
      bad == {k \in 1..Len(g) : W(g[k]) # ""}
  IN IF bad = {} THEN "" ELSE W(g[CHOOSE k \in bad : \A j \in bad : k <= j])

\* ---- what is exactly known
\* a mesh: every corner, its normal, its place on the picture and every triangle
WhyMesh(t, fmt) ==
  LET x == t.base[fmt]
      own == {k \in 1..Len(x) : x[k].o}
      it == t.item
  IN IF Cardinality(own) # 1 THEN "parts"
     ELSE LET p == x[CHOOSE k \in own : TRUE] IN
       IF p.nv # Len(it.v) \/ p.nf # Len(it.f) THEN "counts"
       ELSE IF \E k \in 1..Len(it.v) : ~Near(World(fmt, p.v[k]), PutPoint(it, it.v[k]), 1) THEN "place"
       ELSE IF \E k \in 1..Len(it.v) : ~Near(World(fmt, p.m[k]), PutNormal(it, it.n[k]), 2) THEN "normal"
       ELSE IF \E k \in 1..Len(it.v) : ~Near(p.t[k], IF fmt = "gltf" THEN it.t[k] ELSE <<it.t[k][1], 1000 - it.t[k][2]>>, 1) THEN "place on the picture"
       ELSE IF \E k \in 1..Len(it.f) : p.f[k] \notin Turned(Outside(it.f[k])) THEN "triangles"
       ELSE ""
\* a wall: its outline at the top, its sides between the heights, its picture as large as the table
Upwards(p, fmt, f) == LET a == World(fmt, f[1])
                          u == Minus(World(fmt, f[2]), a)
                          w == Minus(World(fmt, f[3]), a)
                      IN u[1] * w[2] - u[2] * w[1]
\* twice the area of an outline, and of the triangles of a part
RECURSIVE AreaTo(_, _), TotalTo(_, _, _)
AreaTo(pts, k) == IF k = 0 THEN 0 ELSE LET a == pts[k]
                                           b == pts[(k % Len(pts)) + 1]
                                       IN a[1] * b[2] - b[1] * a[2] + AreaTo(pts, k - 1)
Area(pts) == LET c == pts[1] IN AreaTo([k \in 1..Len(pts) |-> <<pts[k][1] - c[1], pts[k][2] - c[2]>>], Len(pts))
TotalTo(p, fmt, k) == IF k = 0 THEN 0 ELSE Abs(Upwards(p, fmt, p.at[k])) + TotalTo(p, fmt, k - 1)
Total(p, fmt) == TotalTo(p, fmt, Len(p.at))
WhyWall(t, fmt) ==
  LET x == t.base[fmt]
      it == t.item
      own == SelectSeq(x, LAMBDA p : p.o)
      Of(s) == SelectSeq(own, LAMBDA p : p.s = s)
      pts == {it.pts[k] : k \in 1..Len(it.pts)}
      Floor(p, zs) == {k \in 1..Len(p.v) : ~\E q \in pts, h \in zs : Near(World(fmt, p.v[k]), <<q[1], q[2], h>>, 1)}
      Missed(p, h) == {q \in pts : ~\E k \in 1..Len(p.v) : Near(World(fmt, p.v[k]), <<q[1], q[2], h>>, 1)}
      top == Of("Top")
      side == Of("Side")
  IN IF Len(own) # 2 \/ Len(top) # 1 \/ Len(side) # 1 THEN "parts"
     ELSE IF Floor(top[1], {it.top}) # {} \/ Missed(top[1], it.top) # {} THEN "top"
     ELSE IF Floor(side[1], {it.top, it.bottom}) # {} \/ Missed(side[1], it.top) # {} \/ Missed(side[1], it.bottom) # {} THEN "sides"
     ELSE IF \E k \in 1..Len(top[1].m) : ~Near(World(fmt, top[1].m[k]), <<0, 0, 1000>>, 2) THEN "normal"
     ELSE IF \E k \in 1..Len(side[1].m) : ~Near(<<World(fmt, side[1].m[k])[3]>>, <<0>>, 2) THEN "side normal"
     ELSE IF Cardinality({Upwards(top[1], fmt, top[1].at[k]) > 0 : k \in {j \in 1..Len(top[1].at) : Upwards(top[1], fmt, top[1].at[j]) # 0}}) > 1 THEN "triangles"
     ELSE IF Abs(Total(top[1], fmt) - Abs(Area(it.pts))) > 4 * Len(it.pts) * Len(it.pts) THEN "area"
     ELSE IF \E k \in 1..Len(top[1].v) : ~Near(<<top[1].t[k][1] * it.size[1], (IF fmt = "gltf" THEN top[1].t[k][2] ELSE 1000 - top[1].t[k][2]) * it.size[2]>>,
                                              <<World(fmt, top[1].v[k])[1] * 1000, World(fmt, top[1].v[k])[2] * 1000>>, 2 * it.size[1] + 2 * it.size[2]) THEN "place on the picture"
     ELSE ""
\* the playfield and the lights above it
WhyTable(t) ==
  LET s == t.size
      corners == {<<s[1], s[2], 0>>, <<s[3], s[2], 0>>, <<s[3], s[4], 0>>, <<s[1], s[4], 0>>}
      PF(fmt) == SelectSeq(t.base[fmt], LAMBDA p : p.pf)
      Quad(fmt) == LET p == PF(fmt) IN
        IF Len(p) # 1 \/ p[1].nv # 4 THEN fmt \o " playfield"
        ELSE IF \E c \in corners : ~\E k \in 1..4 : Near(World(fmt, p[1].v[k]), c, 1) THEN fmt \o " playfield corners"
        ELSE IF \E k \in 1..4 : LET w == World(fmt, p[1].v[k])
                                    v == IF fmt = "gltf" THEN p[1].t[k][2] ELSE 1000 - p[1].t[k][2]
                                IN Abs(w[1] - (IF p[1].t[k][1] > 500 THEN s[3] ELSE s[1])) > 1 \/ Abs(w[2] - (IF v > 500 THEN s[4] ELSE s[2])) > 1 THEN fmt \o " playfield picture"
        ELSE IF \E k \in 1..4 : ~Near(World(fmt, p[1].m[k]), <<0, 0, 1000>>, 2) THEN fmt \o " playfield normal"
        ELSE ""
      L == t.base.lights
      want == <<<<(s[1] + s[3]) \div 2, s[4] \div 3, t.height>>, <<(s[1] + s[3]) \div 2, (s[4] * 2) \div 3, t.height>>>>
  IN IF Quad("gltf") # "" THEN Quad("gltf") ELSE IF Quad("obj") # "" THEN Quad("obj")
     ELSE IF Len(L) < 2 \/ \E k \in 1..2 : ~Near(World("gltf", L[k].v[1]), want[k], 2) THEN "table light" ELSE ""
=============================================================================
