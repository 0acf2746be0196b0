---------------------------- MODULE PlacementMC -----------------------------
(* Both exporters as machines that put one item after the other: the one     *)
(* writes corners relative to a node and the node's place (glTF), the other   *)
(* multiplies matrices and writes places in the table (OBJ). Lengths of the   *)
(* table are doubled by the unit of the file.                                 *)
EXTENDS Placement, TLC
CONSTANTS Flaws, N
Shape == << <<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>> >>
Face == <<1, 2, 3>>
Stand == [kind : {"gate"}, c : {<<5, 7, 0>>, <<-3, 4, 0>>}, q : 0..3, s : {1, 2}, z : {0, 6}, sf : {0, 11}]
Prim == [kind : {"primitive"}, size : {<<1, 1, 1>>, <<1, 2, 3>>}, pos : {<<0, 0, 0>>, <<5, 7, 9>>},
         rot : {<<a, b, c, d, 0, e, f, g, h>> : a, b \in {0, 1}, c \in {0, 3}, d \in {0, 4}, e \in {0, 1}, f, g, h \in {0, 1}}]
\* ---- matrices for row vectors
Id == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>
Cell(r, b, j) == r[1] * b[1][j] + r[2] * b[2][j] + r[3] * b[3][j] + r[4] * b[4][j]
Line(r, b) == <<Cell(r, b, 1), Cell(r, b, 2), Cell(r, b, 3), Cell(r, b, 4)>>
Mul(a, b) == LET x == TLCEval(a)
                 y == TLCEval(b)
             IN TLCEval(<<Line(x[1], y), Line(x[2], y), Line(x[3], y), Line(x[4], y)>>)
MTrans(d) == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<d[1], d[2], d[3], 1>> >>
MScale(s) == << <<s[1], 0, 0, 0>>, <<0, s[2], 0, 0>>, <<0, 0, s[3], 0>>, <<0, 0, 0, 1>> >>
MX(q) == << <<1, 0, 0, 0>>, <<0, Cos(q), Sin(q), 0>>, <<0, -Sin(q), Cos(q), 0>>, <<0, 0, 0, 1>> >>
MY(q) == << <<Cos(q), 0, -Sin(q), 0>>, <<0, 1, 0, 0>>, <<Sin(q), 0, Cos(q), 0>>, <<0, 0, 0, 1>> >>
MZ(q) == << <<Cos(q), Sin(q), 0, 0>>, <<-Sin(q), Cos(q), 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>
Apply(m, p) == LET l == Line(<<p[1], p[2], p[3], 1>>, m) IN <<l[1], l[2], l[3]>>
RT(r) == LET t == MTrans(<<r[4], r[5], r[6]>>)
             z == MZ(r[3])  y == MY(r[2])  x == MX(r[1])
             oz == MZ(r[9])  oy == MY(r[8])  ox == MX(r[7])
         IN IF "order" \in Flaws THEN Mul(Mul(Mul(Mul(Mul(Mul(t, x), y), z), oz), oy), ox)
            ELSE IF "late" \in Flaws THEN Mul(Mul(Mul(Mul(Mul(Mul(z, y), x), t), oz), oy), ox)
            ELSE Mul(Mul(Mul(Mul(Mul(Mul(t, z), y), x), oz), oy), ox)
Full(it) == IF "scaledplace" \in Flaws THEN Mul(Mul(MTrans(it.pos), MScale(it.size)), RT(it.rot)) ELSE Mul(Mul(MScale(it.size), RT(it.rot)), MTrans(it.pos))
\* ---- what should be where
Height(it) == it.sf + it.z
Put(it, p) == IF it.kind = "primitive" THEN PutPoint(it, p) ELSE Plus(RotZ(it.q, Times(p, <<it.s, it.s, it.s>>)), <<it.c[1], it.c[2], Height(it)>>)
Unit == 2
\* ---- the machines
GAxes(p) == <<p[1], p[3], p[2]>>
OAxes(p) == <<p[1], p[2], -p[3]>>
U(p) == <<p[1] * Unit, p[2] * Unit, p[3] * Unit>>
Local(it) == IF it.kind = "primitive" THEN LET m == Mul(MScale(it.size), RT(it.rot)) IN TLCEval([k \in 1..3 |-> Apply(m, Shape[k])])
             ELSE TLCEval([k \in 1..3 |-> RotZ(it.q, Times(Shape[k], <<it.s, it.s, it.s>>))])
Origin(it) == IF it.kind = "primitive" THEN it.pos ELSE <<it.c[1], it.c[2], IF "surface" \in Flaws THEN it.z ELSE Height(it)>>
GNode(it, prev) == TLCEval([v |-> [k \in 1..3 |-> GAxes(U(Local(it)[k]))],
                    t |-> LET org == GAxes(IF "unit" \in Flaws THEN Origin(it) ELSE U(Origin(it))) IN IF "left" \in Flaws /\ prev # <<>> THEN Plus(org, prev[Len(prev)].t) ELSE org,
                    f |-> IF "winding" \in Flaws THEN Face ELSE Outside(Face)])
OPart(it) == LET m == IF it.kind = "primitive" THEN Full(it) ELSE Id
                 l == Local(it)
             IN TLCEval([v |-> [k \in 1..3 |-> OAxes(U(IF it.kind = "primitive" THEN Apply(m, Shape[k]) ELSE Plus(l[k], Origin(it))))], f |-> Outside(Face)])
VARIABLES todo, nodes, out
vars == <<todo, nodes, out>>
Lists == {<<>>} \cup (IF N = 1 THEN {<<a>> : a \in Stand \cup Prim}
         ELSE {<<a, b>> : a \in {x \in Stand : x.s = 2 /\ x.q \in {0, 1}}, b \in {x \in Stand : x.s = 1 /\ x.q < 2} \cup {x \in Prim : x.size = <<1, 2, 3>> /\ x.pos # <<0, 0, 0>> /\ x.rot[7] = 0 /\ x.rot[8] = 1}})
Init == todo \in Lists /\ nodes = <<>> /\ out = <<>>
Step == Len(nodes) < Len(todo) /\ LET it == todo[Len(nodes) + 1] IN nodes' = Append(nodes, GNode(it, nodes)) /\ out' = Append(out, OPart(it)) /\ UNCHANGED todo
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
\* ---- the property
Scaled(p) == <<p[1] * Unit, p[2] * Unit, p[3] * Unit>>
GWorld(x, k) == World("gltf", Plus(x.v[k], x.t))
InPlace == \A n \in 1..Len(nodes) : \A k \in 1..3 : /\ GWorld(nodes[n], k) = Scaled(Put(todo[n], Shape[k]))
                                                /\ World("obj", out[n].v[k]) = Scaled(Put(todo[n], Shape[k]))
Sides == \A n \in 1..Len(nodes) : nodes[n].f \in Turned(Outside(Face)) /\ out[n].f \in Turned(Outside(Face))
Agreed == \A n \in 1..Len(nodes) : \A k \in 1..3 : GWorld(nodes[n], k) = World("obj", out[n].v[k])
\* the changes of Placement are the changes of the place
Changes == {[w |-> "shift", d |-> <<3, -2, 0>>, a |-> 0, b |-> 0], [w |-> "surface", a |-> 0, b |-> 8, d |-> <<0, 0, 0>>], [w |-> "up", a |-> 1, b |-> 9, d |-> <<0, 0, 0>>],
            [w |-> "turn", a |-> 1, b |-> 2, d |-> <<0, 0, 0>>], [w |-> "turn", a |-> 3, b |-> 1, d |-> <<0, 0, 0>>], [w |-> "wide", a |-> 2, b |-> 4, d |-> <<0, 0, 0>>]}
Set(it, x, after) == CASE x.w = "shift" -> IF after THEN [it EXCEPT !.c = Plus(@, x.d)] ELSE it
                       [] x.w = "surface" -> [it EXCEPT !.sf = IF after THEN x.b ELSE x.a]
                       [] x.w = "up" -> [it EXCEPT !.z = IF after THEN x.b ELSE x.a]
                       [] x.w = "turn" -> [it EXCEPT !.q = IF after THEN x.b ELSE x.a]
                       [] OTHER -> [it EXCEPT !.s = IF after THEN x.b ELSE x.a]
Moves == \A n \in 1..Len(todo) : todo[n].kind # "primitive" =>
           \A x \in Changes : \A k \in 1..3 :
             LET it == todo[n]
                 b == Set(it, x, FALSE)
                 t == x @@ [kind |-> "gate", sub |-> "", c |-> it.c, h |-> Height(b)]
             IN Put(Set(it, x, TRUE), Shape[k]) = Image(Change(t, "gltf", ""), Put(b, Shape[k]))
Ends == <>(Len(nodes) = Len(todo))
=============================================================================
