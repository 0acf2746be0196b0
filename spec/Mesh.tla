-------------------------------- MODULE Mesh --------------------------------
(* A primitive's mesh and its animation frames, the files they are extracted *)
(* to (OBJ, GLB, glTF) and the reader of those files.  P20, P25.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Flaws

(***************************************************************************)
(* 32 bit numbers as far as a text or a file format can tell them apart:   *)
(* "amb": its shortest decimal text, read with 64 bits and then narrowed,  *)
(* is another number; "sub": a subnormal number; "third": 1 - v rounds in  *)
(* 32 bits; "tiny": so small that 1 - v loses it in 64 bits;               *)
(* "nan", "nan2": payloads other than the one a text gives ("qnan")        *)
(***************************************************************************)
Pos == {"0", "a", "third", "tiny", "sub", "inf", "amb", "nan", "qnan", "nan2"}
NegName(v) == "-" \o v
Nums == Pos \cup {NegName(v) : v \in Pos}
Neg(v) == CASE v \in Pos -> NegName(v) [] OTHER -> CHOOSE p \in Pos : NegName(p) = v
NaNs == {"nan", "qnan", "nan2", "-nan", "-qnan", "-nan2"}
IsNaN(v) == v \in NaNs
Zero(v) == v \in {"0", "-0"}

(* a number through decimal text *)
Text(v) == CASE IsNaN(v) -> "qnan"
             [] v \in {"amb", "-amb"} /\ "short-text" \in Flaws -> v \o "+"
             [] OTHER -> v
(* V is flipped: the file holds 1 - tv *)
FlipExact(v) == ~IsNaN(v) /\ v \notin {"-0", "tiny", "-tiny", "sub", "-sub"}
Flip(v) == CASE IsNaN(v) -> "qnan"
             [] v \in {"third", "-third"} /\ "flip-32" \in Flaws -> v \o "+"
             [] FlipExact(v) -> v
             [] v = "-0" -> "0"
             [] OTHER -> v \o "~"

(***************************************************************************)
(* index width                                                             *)
(***************************************************************************)
Width(n) == IF n > (IF "width-edge" \in Flaws THEN 65536 ELSE 65535) THEN 4 ELSE 2
(* vpinball decides how to read stored indices by the number of vertices *)
Reads(n) == IF n > 65535 THEN 4 ELSE 2
Narrow(w, i) == IF w = 2 THEN i % 65536 ELSE i
WidthRight(n) == Width(n) = Reads(n) /\ Narrow(Width(n), n - 1) = n - 1

(***************************************************************************)
(* a mesh: v: 8 numbers each, f: 3 vertices each (from 1), fr: per frame   *)
(* and vertex 6 numbers                                                    *)
(***************************************************************************)
L(k, x) == [k |-> k, x |-> x]
Unwritable(q) == \/ \E i \in (IF "nan-normals-only" \in Flaws THEN 4..6 ELSE 1..8) : IsNaN(q[i])
                 \/ ~FlipExact(q[8])
ZeroNaN(v) == IF IsNaN(v) THEN "0" ELSE v
RECURSIVE Normals(_)
Normals(vs) ==
  IF vs = <<>> THEN <<>> ELSE
  LET q == Head(vs) IN
  (IF Unwritable(q) THEN <<L("#vpx", q)>> ELSE <<>>)
  \o <<L("vn", <<Text(ZeroNaN(q[4])), Text(ZeroNaN(q[5])), IF IsNaN(q[6]) THEN "0" ELSE Text(Neg(q[6]))>>)>>
  \o Normals(Tail(vs))
WriteObj(m) ==
  <<L("#", <<>>), L("o", <<>>)>>
  \o [i \in DOMAIN m.v |-> L("v", <<Text(m.v[i][1]), Text(m.v[i][2]), Text(Neg(m.v[i][3]))>>)]
  \o [i \in DOMAIN m.v |-> L("vt", <<Text(m.v[i][7]), Flip(m.v[i][8])>>)]
  \o Normals(m.v)
  \o [i \in DOMAIN m.f |-> L("f", [j \in 1..3 |-> <<m.f[i][4 - j], m.f[i][4 - j], m.f[i][4 - j]>>])]

(***************************************************************************)
(* the reader of OBJ files, a statement at a time                          *)
(***************************************************************************)
Reader0 == [v |-> <<>>, vt |-> <<>>, vn |-> <<>>, bytes |-> <<>>, f |-> <<>>, o |-> 0, prev |-> <<>>]
ReadLine(r, l) ==
  LET c == IF "comment-stays" \in Flaws THEN r.prev ELSE <<>> IN
  CASE l.k = "#" -> [r EXCEPT !.prev = <<>>]
    [] l.k = "#vpx" -> [r EXCEPT !.prev = l.x]
    [] l.k = "o" -> [r EXCEPT !.o = @ + 1, !.prev = c]
    [] l.k = "v" -> [r EXCEPT !.v = Append(@, l.x), !.prev = c]
    [] l.k = "vt" -> [r EXCEPT !.vt = Append(@, l.x), !.prev = c]
    [] l.k = "vn" -> [r EXCEPT !.vn = Append(@, l.x), !.bytes = Append(@, r.prev), !.prev = c]
    [] l.k = "f" -> [r EXCEPT !.f = Append(@, l.x), !.prev = c]
    [] OTHER -> r
RECURSIVE ReadLines(_, _)
ReadLines(r, ls) == IF ls = <<>> THEN r ELSE ReadLines(ReadLine(r, Head(ls)), Tail(ls))

Matched(r) == \A f \in DOMAIN r.f : Len(r.f[f]) = 3 /\ \A k \in 1..3 : r.f[f][k][1] = r.f[f][k][2] /\ r.f[f][k][1] = r.f[f][k][3]
There(r, c) == c[1] \in DOMAIN r.v /\ c[2] \in DOMAIN r.vt /\ c[3] \in DOMAIN r.vn
AllThere(r) == \A f \in DOMAIN r.f : Len(r.f[f]) >= 3 /\ \A k \in DOMAIN r.f[f] : There(r, r.f[f][k])
Aligned(r) == Matched(r) /\ Len(r.vt) >= Len(r.v) /\ Len(r.vn) >= Len(r.v)
Readable(r) == r.o = 1 /\ (("unchecked" \in Flaws /\ Matched(r)) \/ AllThere(r))

Rev(s) == IF "winding" \in Flaws THEN s ELSE [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* the corners of the triangles a face stands for *)
Fan(f) == LET g == Rev(f) IN [i \in 1..(Len(g) - 2) |-> <<g[1], g[i + 1], g[i + 2]>>]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Triangles(r) == Concat([f \in DOMAIN r.f |-> Fan(r.f[f])])
(* every corner once, in the order in which the triangles use them *)
RECURSIVE Once(_, _)
Once(cs, done) ==
  IF cs = <<>> THEN done
  ELSE Once(Tail(cs), IF \E i \in DOMAIN done : done[i] = Head(cs) THEN done ELSE Append(done, Head(cs)))
(* corners of the mesh, in the order of its vertices *)
Corners(r) == IF Aligned(r) THEN [i \in DOMAIN r.v |-> <<i, i, i>>]
              ELSE Once(Concat([t \in DOMAIN Triangles(r) |-> Triangles(r)[t]]),
                        <<>>)
At(cs, c) == CHOOSE i \in DOMAIN cs : cs[i] = c
Faces(r) == LET cs == Corners(r) t == Triangles(r) IN
            IF Aligned(r) THEN [i \in DOMAIN t |-> [k \in 1..3 |-> t[i][k][1]]]
            ELSE [i \in DOMAIN t |-> [k \in 1..3 |-> At(cs, t[i][k])]]
NegZ(v) == IF "z-kept" \in Flaws THEN v ELSE Neg(v)
Vertex(r, c) ==
  LET p == r.v[c[1]] t == r.vt[c[2]] n == r.vn[c[3]] b == r.bytes[c[3]] IN
  IF b # <<>> THEN b
  ELSE <<p[1], p[2], NegZ(p[3]), ZeroNaN(n[1]), ZeroNaN(n[2]), ZeroNaN(NegZ(n[3])), t[1], t[2]>>
ReadObj(ls) ==
  LET r == ReadLines(Reader0, ls) cs == Corners(r) IN
  [v |-> [i \in DOMAIN cs |-> Vertex(r, cs[i])], f |-> Faces(r)]
(* a frame has no use for the bytes: they are those of no vertex *)
ReadObjFrame(ls) ==
  LET r == ReadLines(Reader0, ls) cs == Corners(r) IN
  [i \in DOMAIN cs |-> LET p == r.v[cs[i][1]] n == r.vn[cs[i][3]] IN <<p[1], p[2], NegZ(p[3]), n[1], n[2], NegZ(n[3])>>]

(***************************************************************************)
(* glTF: numbers are stored with their 32 bits; normals must be numbers,   *)
(* the stored ones are kept beside                                         *)
(***************************************************************************)
WriteGltf(m) ==
  [pos |-> [i \in DOMAIN m.v |-> SubSeq(m.v[i], 1, 3)],
   nor |-> [i \in DOMAIN m.v |-> [k \in 1..3 |-> ZeroNaN(m.v[i][3 + k])]],
   ext |-> [i \in DOMAIN m.v |-> SubSeq(m.v[i], 4, 6)],
   tex |-> [i \in DOMAIN m.v |-> SubSeq(m.v[i], 7, 8)],
   idx |-> m.f]
ReadGltf(g) ==
  [v |-> [i \in DOMAIN g.pos |-> g.pos[i] \o (IF "no-extras" \in Flaws THEN g.nor[i] ELSE g.ext[i]) \o g.tex[i]],
   f |-> g.idx]
ReadGltfFrame(g) == [i \in DOMAIN g.pos |-> g.pos[i] \o g.nor[i]]

(***************************************************************************)
(* frames: each in a file of its own, a mesh with the frame's positions    *)
(* and normals                                                             *)
(***************************************************************************)
FrameMesh(m, k) == [v |-> [i \in DOMAIN m.v |-> m.fr[k][i] \o SubSeq(m.v[i], 7, 8)], f |-> m.f]
(* the order in which a directory lists anim_0, anim_1, anim_10, ... *)
ByName(n) == LET S == 1..n
                 Name(i) == IF i > 10 THEN <<(i - 1) \div 10, (i - 1) % 10>> ELSE <<i - 1, -1>>
                 Less(i, j) == Name(i)[1] < Name(j)[1] \/ (Name(i)[1] = Name(j)[1] /\ Name(i)[2] < Name(j)[2])
             IN [k \in S |-> CHOOSE i \in S : Cardinality({j \in S : Less(j, i)}) = k - 1]
FrameOrder(n) == IF "frames-by-name" \in Flaws THEN ByName(n)
                 ELSE [k \in 1..(IF "one-digit" \in Flaws /\ n > 10 THEN 10 ELSE n) |-> k]

Extract(m, fmt) ==
  LET W(x) == IF fmt = "obj" THEN [obj |-> WriteObj(x)] ELSE [gltf |-> WriteGltf(x)] IN
  [base |-> W(m), frames |-> [k \in DOMAIN m.fr |-> W(FrameMesh(m, k))]]
Assemble(d, fmt) ==
  LET b == IF fmt = "obj" THEN ReadObj(d.base.obj) ELSE ReadGltf(d.base.gltf)
      o == FrameOrder(Len(d.frames)) IN
  [v |-> b.v, f |-> b.f,
   fr |-> [k \in DOMAIN o |-> IF fmt = "obj" THEN ReadObjFrame(d.frames[o[k]].obj) ELSE ReadGltfFrame(d.frames[o[k]].gltf)]]

(***************************************************************************)
(* P20                                                                     *)
(***************************************************************************)
(* zeros are equal; the normals of a frame may give up not being a number *)
SameNum(a, b) == a = b \/ (Zero(a) /\ Zero(b))
SameFrame(m, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \A k \in 1..6 :
                        SameNum(a[i][k], b[i][k]) \/ (IsNaN(a[i][k]) /\ (k <= 3 => IsNaN(b[i][k])))
Survives(m, n) == /\ n.v = m.v /\ n.f = m.f
                  /\ Len(n.fr) = Len(m.fr)
                  /\ \A k \in DOMAIN m.fr : SameFrame(m, m.fr[k], n.fr[k])
=============================================================================
