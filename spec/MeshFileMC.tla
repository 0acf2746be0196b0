----------------------------- MODULE MeshFileMC -----------------------------
(* Meshes are written a file at a time; every file is judged when it is     *)
(* there, and what both kinds of file say of a mesh is compared.            *)
EXTENDS MeshFile, Json, TLC
CONSTANTS MaxV, MaxF, MaxFr, Emit
VARIABLES cur, kindOf, done
vars == <<cur, kindOf, done>>
(* vertex i of a mesh: numbers that tell vertices and places apart          *)
Vert(i, s) == <<3 - 2 * i, 10 + i, 20 + 3 * i, 2, IF s = "nan" /\ i = 1 THEN None ELSE 3 + i, IF s = "nan" /\ i = 2 THEN None ELSE -4 - i, i, 2 * i>>
Move(k, i) == <<k - i, 5 * k + i, -k - 2 * i, k, i, k + i>>
Face(n) == {<<a, b, c>> : a \in 1..n, b \in 1..n, c \in 1..n}
Few(n) == {x \in Face(n) : x = <<1, 1, 1>> \/ x = <<n, 1, 1>> \/ (x[1] = n /\ x[2] = 1 /\ x[3] # 1)}
Meshes0 == {[v |-> [i \in 1..n |-> Vert(i, s)], f |-> f, fr |-> [k \in 1..fr |-> [i \in 1..n |-> Move(k, i)]]] :
              n \in 1..MaxV, s \in {"", "nan"}, f \in {<<>>}, fr \in 0..MaxFr}
WithFaces(x) == {[x EXCEPT !.f = g] : g \in UNION {[1..k -> Few(Len(x.v))] : k \in 1..MaxF}}
Init == /\ cur \in UNION {WithFaces(x) : x \in Meshes0} /\ kindOf \in {"obj", "gltf"} /\ done = <<>>
Next == /\ Len(done) <= Len(cur.fr)
        /\ done' = Append(done, Written(kindOf, FileMesh(cur, Len(done))))
        /\ UNCHANGED <<cur, kindOf>>
FileRight == \A k \in DOMAIN done : Why(kindOf, WantMesh(cur, k - 1), done[k]) = ""
(* the formats agree on every mesh                                          *)
FormatsAgree == Len(done) = 0 \/ LET w == FileMesh(cur, Len(done) - 1) IN WhyPair(Written("obj", w), Written("gltf", w), 0) = ""
Report == (Len(done) = Len(cur.fr) + 1 /\ "x" \in Emit /\ kindOf = "obj") => PrintT("VP " \o ToJson(cur))
=============================================================================
