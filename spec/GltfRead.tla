------------------------------ MODULE GltfRead ------------------------------
(* How a mesh lies in a glTF file, and reading it: whoever writes the file  *)
(* may put the numbers anywhere, interleave them, list the accessors in any *)
(* order and choose the width of indices; normals, texture coordinates and  *)
(* indices may be left out.  P25.                                           *)
(*   mem    the numbers there are: [o (where), w (bytes), x (the number)]   *)
(*   views  [off, stride (0: none given)]                                   *)
(*   acc    [view, off, w, n (numbers per element), count]                  *)
(*   prim   [pos, nor, tex, idx]: accessors from 1; 0 is none               *)
EXTENDS Integers, Sequences
CONSTANT Flaws
Junk == -999999
Read1(mem, o, w) == IF \E k \in DOMAIN mem : mem[k].o = o /\ mem[k].w = w THEN LET k == CHOOSE k \in DOMAIN mem : mem[k].o = o /\ mem[k].w = w IN mem[k].x ELSE Junk
Stride(d, a) == LET s == d.views[a.view].stride IN IF s = 0 \/ "no-stride" \in Flaws THEN (IF "wide" \in Flaws /\ a.w = 1 THEN 2 ELSE a.w) * a.n ELSE s
Start(d, a) == d.views[a.view].off + (IF "no-offset" \in Flaws THEN 0 ELSE a.off)
Element(d, a, i) == [k \in 1..a.n |-> Read1(d.mem, Start(d, a) + (i - 1) * Stride(d, a) + (k - 1) * a.w, a.w)]
Elements(d, j) == LET a == d.acc[j] IN [i \in 1..a.count |-> Element(d, a, i)]
(* which accessor an attribute is                                           *)
Which(d, j, k) == IF "positional" \in Flaws THEN (IF k \in DOMAIN d.acc THEN k ELSE 0) ELSE j
Zeros(n) == [k \in 1..n |-> 0]
Triples(s) == [i \in 1..(Len(s) \div 3) |-> <<s[3 * i - 2], s[3 * i - 1], s[3 * i]>>]
ReadGltfFile(d) ==
  LET p == Elements(d, Which(d, d.prim.pos, 1))
      nj == Which(d, d.prim.nor, 2) tj == Which(d, d.prim.tex, 3) ij == Which(d, d.prim.idx, 4)
      n == IF nj = 0 THEN [i \in DOMAIN p |-> Zeros(3)] ELSE Elements(d, nj)
      t == IF tj = 0 THEN [i \in DOMAIN p |-> Zeros(2)] ELSE Elements(d, tj)
      x == IF ij = 0 THEN [i \in DOMAIN p |-> i] ELSE LET e == Elements(d, ij) IN [i \in DOMAIN e |-> e[i][1] + 1] IN
  [v |-> [i \in DOMAIN p |-> p[i] \o n[i] \o t[i]], f |-> Triples(x)]
=============================================================================
