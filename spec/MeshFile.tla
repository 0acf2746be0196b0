------------------------------ MODULE MeshFile ------------------------------
(* The mesh files of an extracted table, as any other program reads them:   *)
(* a file per mesh primitive and one per animation frame, each complete on  *)
(* its own.  P27.                                                           *)
(* A mesh m: v of 8 numbers each (position, normal, texture coordinate), f  *)
(* of 3 vertices each (from 1), fr: per frame and vertex 6 numbers.         *)
(* Numbers are whole (in units of 1/One); None is no number.                *)
EXTENDS SceneDoc, FiniteSets
CONSTANTS Flaws,
          One,      \* the number 1
          Narrow    \* the largest number 2 bytes hold
None == 2000000001
Real(x) == IF x = None THEN 0 ELSE x

(***************************************************************************)
(* what a reader must see: the kind of file decides the coordinates.       *)
(* glTF: as stored.  OBJ: as vpinball exports it, for a right-handed world *)
(* with V upwards.  A normal that is no number is written as zero.         *)
(***************************************************************************)
SeenVertex(fmt, q) ==
  IF fmt = "obj" THEN <<q[1], q[2], -q[3], Real(q[4]), Real(q[5]), -Real(q[6]), q[7], One - q[8]>>
  ELSE <<q[1], q[2], q[3], Real(q[4]), Real(q[5]), Real(q[6]), q[7], q[8]>>
SeenFace(fmt, f) == IF fmt = "obj" THEN <<f[3], f[2], f[1]>> ELSE f
(* the same triangle: it may begin at another corner                        *)
SameFace(a, b) == a = b \/ a = <<b[2], b[3], b[1]>> \/ a = <<b[3], b[1], b[2]>>
FrameOf(m, k) == [v |-> [i \in DOMAIN m.v |-> m.fr[k][i] \o SubSeq(m.v[i], 7, 8)], f |-> m.f]

(***************************************************************************)
(* the writer                                                              *)
(***************************************************************************)
Bytes(n) == IF n > Narrow THEN 4 ELSE 2
(* Narrow itself means "no index": a mesh of Narrow vertices ends before it *)
Size(n) == IF "narrow-edge" \in Flaws THEN (IF n > Narrow + 1 THEN 4 ELSE 2) ELSE Bytes(n)
Pad(n) == ((n + 3) \div 4) * 4
RECURSIVE Most(_)
Most(s) == IF s = <<>> THEN 0 ELSE LET a == Head(s) b == Most(Tail(s)) IN IF a > b THEN a ELSE b
(* where things lie in a glTF file                                          *)
Layout(m) ==
  LET n == Len(m.v) w == Size(n) ni == 3 * Len(m.f)
      at == <<0, 12 * n, IF "tex-on-normals" \in Flaws THEN 12 * n ELSE 24 * n, 32 * n>>
      len == <<12 * n, 12 * n, 8 * n, w * ni>>
      total == Pad(32 * n + w * ni) IN
  [buf |-> <<total>>, decl |-> <<IF "declared-unpadded" \in Flaws THEN 32 * n + w * ni ELSE total>>,
   views |-> [i \in 1..4 |-> [b |-> 0, off |-> at[i], len |-> len[i]]], order |-> <<0, 1, 2, 3>>,
   acc |-> <<[view |-> 0, off |-> 0, size |-> 4, comps |-> 3, count |-> n, hi |-> 0, bounds |-> IF "first-bounds" \in Flaws /\ \E i \in DOMAIN m.v : m.v[i][1] < m.v[1][1] THEN "bad" ELSE "ok"],
             [view |-> 1, off |-> 0, size |-> 4, comps |-> 3, count |-> n, hi |-> 0, bounds |-> "none"],
             [view |-> 2, off |-> 0, size |-> 4, comps |-> 2, count |-> n, hi |-> 0, bounds |-> "none"],
             [view |-> 3, off |-> 0, size |-> w, comps |-> 1, count |-> IF "count-faces" \in Flaws THEN Len(m.f) ELSE ni,
              hi |-> Most([i \in DOMAIN m.f |-> Most(m.f[i])]) - 1, bounds |-> "none"]>>,
   meshes |-> <<<<[pos |-> 0, nor |-> 1, tex |-> 2, idx |-> 3, mat |-> -1]>>>>,
   nodes |-> <<[mesh |-> 0, light |-> -1, cam |-> -1, ch |-> <<>>]>>, depth |-> <<0>>, roots |-> <<0>>, scene |-> 0, nscenes |-> 1,
   mats |-> <<>>, textures |-> <<>>, images |-> <<>>, nsamp |-> 0, nlights |-> 0, ncams |-> 0, narrow |-> Narrow]
(* an index in two bytes                                                    *)
Stored(n, i) == IF Size(n) = 2 THEN ((i - 1) % (Narrow + 1)) + 1 ELSE i
Put(fmt, q) ==
  IF fmt = "obj" THEN <<q[1], q[2], IF "z-kept" \in Flaws THEN q[3] ELSE -q[3], Real(q[4]), Real(q[5]), IF "normal-kept" \in Flaws THEN Real(q[6]) ELSE -Real(q[6]),
                        q[7], IF "v-kept" \in Flaws THEN q[8] ELSE One - q[8]>>
  ELSE SubSeq(q, 1, 3) \o [i \in 1..3 |-> IF "nan-kept" \in Flaws THEN q[3 + i] ELSE Real(q[3 + i])] \o SubSeq(q, 7, 8)
Written(fmt, m) ==
  [v |-> [i \in DOMAIN m.v |-> Put(fmt, m.v[i])],
   f |-> [i \in DOMAIN m.f |-> LET g == IF fmt = "obj" /\ "winding" \notin Flaws THEN <<m.f[i][3], m.f[i][2], m.f[i][1]>> ELSE m.f[i] IN
           [k \in 1..3 |-> IF fmt = "obj" THEN g[k] ELSE Stored(Len(m.v), g[k])]],
   doc |-> IF fmt = "obj" THEN <<>> ELSE <<Layout(m)>>]
(* file 0 holds the mesh, file k frame k                                    *)
FileMesh(m, k) == IF k = 0 THEN m
                  ELSE IF "frame-base" \in Flaws THEN [v |-> m.v, f |-> m.f]
                  ELSE IF "frame-normals" \in Flaws THEN [v |-> [i \in DOMAIN m.v |-> SubSeq(m.fr[k][i], 1, 3) \o SubSeq(m.v[i], 4, 8)], f |-> m.f]
                  ELSE FrameOf(m, IF "frame-first" \in Flaws THEN 1 ELSE k)

(***************************************************************************)
(* P27: what is wrong with a file that is to hold mesh m                   *)
(***************************************************************************)
WantMesh(m, k) == IF k = 0 THEN [v |-> m.v, f |-> m.f] ELSE FrameOf(m, k)
WhyContent(fmt, w, seen) ==
  CASE Len(seen.v) # Len(w.v) -> "number of vertices"
    [] Len(seen.f) # Len(w.f) -> "number of triangles"
    [] \E i \in DOMAIN w.v : SubSeq(seen.v[i], 1, 3) # SubSeq(SeenVertex(fmt, w.v[i]), 1, 3) -> "positions"
    [] \E i \in DOMAIN w.v : SubSeq(seen.v[i], 4, 6) # SubSeq(SeenVertex(fmt, w.v[i]), 4, 6) -> "normals"
    [] \E i \in DOMAIN w.v : SubSeq(seen.v[i], 7, 8) # SubSeq(SeenVertex(fmt, w.v[i]), 7, 8) -> "texture coordinates"
    [] \E i \in DOMAIN w.f : ~SameFace(seen.f[i], SeenFace(fmt, w.f[i])) -> "triangles"
    [] OTHER -> ""
Why(fmt, w, seen) ==
  CASE fmt # "obj" /\ WhyDoc(seen.doc[1]) # "" -> WhyDoc(seen.doc[1])
    [] OTHER -> WhyContent(fmt, w, seen)

(***************************************************************************)
(* one generated mesh in the formats: a is the OBJ file, b the glTF file,  *)
(* numbers within tol of each other                                        *)
(***************************************************************************)
Near(a, b, tol) == a = b \/ (a # None /\ b # None /\ a - b <= tol /\ b - a <= tol)
NearRow(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)
WhyPair(a, b, tol) ==
  CASE Len(a.v) # Len(b.v) -> "number of vertices"
    [] Len(a.f) # Len(b.f) -> "number of triangles"
    [] \E i \in DOMAIN b.v : ~NearRow(a.v[i], SeenVertex("obj", b.v[i]), tol) -> "vertices"
    [] \E i \in DOMAIN b.f : ~SameFace(a.f[i], SeenFace("obj", b.f[i])) -> "triangles"
    [] OTHER -> ""
=============================================================================
