------------------------------- MODULE MeshMC -------------------------------
(* Meshes extracted and assembled, and OBJ files of other tools read.       *)
EXTENDS Mesh, TLC, Json
CONSTANTS Family,    \* "round" or "foreign"
          Special,   \* how many components of a mesh are not ordinary
          MaxFrames, MaxFaces, MaxCorners, Count, Emit
VARIABLES mesh, fmt, back, phase,      \* round
          file                         \* foreign: the statements so far
vars == <<mesh, fmt, back, phase, file>>

Plain == <<"a", "-a", "a", "0", "third", "-third", "a", "third">>
NoMesh == [v |-> <<>>, f |-> <<>>, fr |-> <<>>]
(* round: a mesh with up to Special special components, in any places *)
Sets == {s \in SUBSET ((1..Count) \X (1..8)) : Cardinality(s) <= Special}
MeshOf(s, val, nf) ==
  LET V == [i \in 1..Count |-> [k \in 1..8 |-> IF <<i, k>> \in s THEN val[<<i, k>>] ELSE Plain[k]]]
      F == [k \in 1..nf |-> [i \in 1..Count |-> [c \in 1..6 |->
              IF <<i, c>> \in s /\ k % 2 = 1 THEN val[<<i, c>>]
              ELSE IF c = 1 THEN (IF k % 3 = 0 THEN "third" ELSE IF k % 3 = 1 THEN "-third" ELSE "inf") ELSE IF c = 2 THEN (IF k > 10 THEN "inf" ELSE "0") ELSE Plain[c]]]]
  IN [v |-> V, f |-> <<<<1, Count, 1>>, <<Count, 1, 1>>>>, fr |-> F]

Init == /\ back = NoMesh
        /\ phase = "new"
        /\ IF Family = "round"
           THEN /\ \E s \in Sets : \E val \in [s -> Nums] : \E nf \in 0..MaxFrames : mesh = MeshOf(s, val, nf)
                /\ fmt \in {"obj", "gltf"}
                /\ file = <<>>
           ELSE mesh = NoMesh /\ fmt = "obj" /\ file = <<>>

Round == /\ Family = "round" /\ phase = "new"
         /\ phase' = "done"
         /\ back' = Assemble(Extract(mesh, fmt), fmt)
         /\ UNCHANGED <<mesh, fmt, file>>

(* foreign: positions, texture coordinates and normals, then faces; then objects and whatever else in between *)
NumLines(k) == Cardinality({i \in DOMAIN file : file[i].k = k})
Nothing == L("other", <<>>)
Corner == (1..(NumLines("v") + 1)) \X (0..(NumLines("vt") + 1)) \X (0..(NumLines("vn") + 1))
Bad(c) == c[1] > NumLines("v") \/ c[2] \notin 1..NumLines("vt") \/ c[3] \notin 1..NumLines("vn")
AnyBad == \E i \in DOMAIN file : file[i].k = "f" /\ \E j \in DOMAIN file[i].x : Bad(file[i].x[j])
Open == Len(file) > 0 /\ file[Len(file)].k = "f"
Add == /\ Family = "foreign" /\ phase = "new"
       /\ \/ \E k \in {"v", "vt", "vn"} :
               /\ NumLines("f") = 0 \/ "late" \in Emit
               /\ NumLines(k) < Count
               /\ "late" \in Emit \/ \A i \in DOMAIN file : (file[i].k = "v" \/ (file[i].k = "vt" /\ k # "v") \/ (file[i].k = "vn" /\ k = "vn"))
               /\ file' = Append(file, L(k, IF k = "vt" THEN <<NumLines(k), NumLines(k)>> ELSE <<NumLines(k), NumLines(k), NumLines(k)>>))
               /\ UNCHANGED phase
          \/ /\ NumLines("f") < MaxFaces /\ NumLines("v") > 0
             /\ Open => Len(file[Len(file)].x) >= 2
             /\ file' = Append(file, L("f", <<>>))
             /\ UNCHANGED phase
          \/ /\ Open /\ Len(file[Len(file)].x) < MaxCorners
             /\ \E c \in Corner : (Bad(c) => ~AnyBad) /\ file' = [file EXCEPT ![Len(file)].x = Append(@, c)]
             /\ UNCHANGED phase
          \/ /\ Open /\ Len(file[Len(file)].x) >= 2
             /\ phase' = "done"
             /\ UNCHANGED file
       /\ UNCHANGED <<mesh, fmt, back>>

Next == Round \/ Add
-----------------------------------------------------------------------------
R == ReadLines(Reader0, <<L("o", <<>>)>> \o file)
(* the triangles of the file, each corner as it stands there *)
Wanted == Concat([i \in DOMAIN R.f |-> LET f == R.f[i] n == Len(f) IN [k \in 1..(n - 2) |-> <<f[n], f[n - k], f[n - k - 1]>>]])
ForeignRight ==
  Family = "foreign" /\ phase = "done" =>
    IF ~Readable(R) THEN ~AllThere(R)
    ELSE LET cs == Corners(R) fs == Faces(R) IN
         /\ AllThere(R)
         /\ Len(fs) = Len(Wanted)
         /\ \A i \in DOMAIN fs : \A k \in 1..3 : fs[i][k] \in DOMAIN cs /\ cs[fs[i][k]] = Wanted[i][k]
         /\ \A i, j \in DOMAIN cs : cs[i] = cs[j] => i = j
         /\ \A i \in DOMAIN cs : There(R, cs[i])
RoundRight == Family = "round" /\ phase = "done" => Survives(mesh, back)
WidthsRight == phase # "new" \/ \A n \in {1, 2, 65534, 65535, 65536, 65537, 131072} : WidthRight(n)

Report ==
  phase = "done" /\ Emit # {} =>
    IF Family = "round" THEN PrintT("VP " \o ToJson([v |-> mesh.v, frames |-> Len(mesh.fr), fr |-> IF mesh.fr = <<>> THEN <<>> ELSE mesh.fr[1], fmt |-> fmt]))
    ELSE PrintT("VP " \o ToJson([file |-> file, ok |-> Readable(R)]))
=============================================================================
