----------------------------- MODULE MeshTrace -----------------------------
(* What the library made of meshes and mesh files, judged.                  *)
EXTENDS Mesh, TLC, Json, IOUtils
G == INSTANCE GltfRead WITH Flaws <- {}
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))

In(x, s) == \E i \in DOMAIN s : s[i] = x
(* numbers are their bits; nan and zero list those that are no number or zero *)
Same(t, a, b) == a = b \/ (In(a, t.zero) /\ In(b, t.zero))
FrameSame(t, a, b) ==
  Len(a) = Len(b) /\ \A i \in DOMAIN a : \A k \in 1..6 :
     Same(t, a[i][k], b[i][k]) \/ (In(a[i][k], t.nan) /\ (k <= 3 => In(b[i][k], t.nan)))
WhyRound(t) ==
  CASE t.write # "ok" -> "not extracted"
    [] t.read # "ok" -> "not read back"
    [] t.nv # t.n -> "number of vertices"
    [] t.nf # t.m -> "number of indices"
    [] t.vlen # 32 * t.n -> "length of the vertex data"
    [] t.flen # Reads(t.n) * t.m -> "index width"
    [] ~t.lens -> "stored lengths"
    [] t.usable # "yes" -> "not usable"
    [] t.big -> (IF ~t.vsame THEN "vertices" ELSE IF ~t.fsame THEN "indices" ELSE IF ~t.frsame THEN "frames" ELSE "")
    [] t.v2 # t.v -> "vertices"
    [] t.f2 # t.f -> "indices"
    [] Len(t.fr2) # Len(t.fr) -> "number of frames"
    [] \E k \in DOMAIN t.fr : ~FrameSame(t, t.fr[k], t.fr2[k]) ->
         (IF \E k \in DOMAIN t.fr : \E j \in DOMAIN t.fr : j # k /\ t.fr2[k] = t.fr[j] THEN "order of frames" ELSE "frames")
    [] OTHER -> ""

(* whole numbers: the vertex a corner stands for *)
IVertex(r, c) ==
  LET p == r.v[c[1]] t == r.vt[c[2]] n == r.vn[c[3]] b == r.bytes[c[3]] IN
  IF Len(b) = 8 THEN b
  ELSE <<p[1], p[2], -p[3]>> \o (IF Len(b) = 3 THEN b ELSE <<n[1], n[2], -n[3]>>) \o <<t[1], 1 - t[2]>>
IFrame(r, c) == LET p == r.v[c[1]] n == r.vn[c[3]] IN <<p[1], p[2], -p[3], n[1], n[2], -n[3]>>
WhyForeign(t) ==
  LET r == TLCEval(ReadLines(Reader0, t.file)) IN
  CASE t.read = "panic" -> "aborted"
    [] ~Readable(r) -> (IF t.read = "ok" THEN "a file that is no mesh was accepted" ELSE "")
    [] t.read # "ok" -> "a mesh file was refused"
    [] OTHER ->
       LET cs == TLCEval(Corners(r)) w == TLCEval(Triangles(r)) IN
       CASE t.nv # Len(t.v) -> "number of vertices"
         [] t.nf # 3 * Len(t.f) -> "number of indices"
         [] t.flen # Reads(t.nv) * t.nf -> "index width"
         [] t.usable # "yes" -> "not usable"
         [] Len(t.f) # Len(w) -> "number of triangles"
         [] \E i \in DOMAIN w : \E k \in 1..3 : t.f[i][k] \notin DOMAIN t.v -> "index without vertex"
         [] \E i \in DOMAIN w : \E k \in 1..3 : t.v[t.f[i][k]] # IVertex(r, w[i][k]) -> "triangles"
         [] Len(t.v) # Len(cs) -> "vertices stored more or less than once"
         [] Aligned(r) /\ \E i \in DOMAIN cs : t.v[i] # IVertex(r, cs[i]) -> "numbering of vertices"
         [] Len(t.fr) # Len(t.frames) -> "number of frames"
         [] \E k \in DOMAIN t.fr :
              LET q == ReadLines(Reader0, t.frames[k]) u == Triangles(q) IN
                \/ Len(t.fr[k]) # Len(t.v)
                \/ \E i \in DOMAIN w : \E j \in 1..3 : t.fr[k][t.f[i][j]] # IFrame(q, u[i][j]) -> "frames"
         [] OTHER -> ""

(* a glTF file of another tool                                              *)
FrameOfGltf(d) == LET g == G!ReadGltfFile(d) IN [i \in DOMAIN g.v |-> SubSeq(g.v[i], 1, 6)]
WhyGltf(t) ==
  LET w == TLCEval(G!ReadGltfFile(t.doc)) IN
  CASE t.read = "panic" -> "aborted"
    [] t.bad # "" -> (IF t.read = "ok" THEN "a file with " \o t.bad \o " was accepted" ELSE "")
    [] t.read # "ok" -> "a mesh file was refused"
    [] Len(t.v) # Len(w.v) \/ t.nv # Len(w.v) -> "number of vertices"
    [] t.nf # 3 * Len(w.f) -> "number of indices"
    [] t.usable # "yes" -> "not usable"
    [] \E i \in DOMAIN w.v : SubSeq(t.v[i], 1, 3) # SubSeq(w.v[i], 1, 3) -> "positions"
    [] \E i \in DOMAIN w.v : SubSeq(t.v[i], 4, 6) # SubSeq(w.v[i], 4, 6) -> "normals"
    [] \E i \in DOMAIN w.v : SubSeq(t.v[i], 7, 8) # SubSeq(w.v[i], 7, 8) -> "texture coordinates"
    [] t.f # w.f -> "triangles"
    [] Len(t.fr) # Len(t.frames) -> "number of frames"
    [] \E k \in DOMAIN t.fr : t.fr[k] # FrameOfGltf(t.frames[k]) -> "frames"
    [] OTHER -> ""

Why(t) == IF t.kind = "round" THEN WhyRound(t) ELSE IF t.kind = "gltf" THEN WhyGltf(t) ELSE WhyForeign(t)
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Judge == i <= Len(Cases) => LET w == Why(Cases[i]) IN w # "" => PrintT("VP " \o ToJson([id |-> Cases[i].id, why |-> w]))
=============================================================================
