---------------------------- MODULE MeshFileTrace ----------------------------
(* Judges the mesh files of extracted tables.  A line is one file of a      *)
(* primitive's mesh ("mesh": fmt, the rows of the stored mesh that were     *)
(* looked at and the same rows of the file), one generated mesh in all      *)
(* formats ("made") or what a table's folder holds ("folder").              *)
EXTENDS Integers, Sequences, Json, TLC, IOUtils, FiniteSets
VARIABLE i
INSTANCE MeshFile WITH Flaws <- {}, One <- 1024, Narrow <- 65535
T == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
Seen(x) == [v |-> [k \in DOMAIN x.v |-> x.v[k] \o x.m[k] \o x.t[k]], f |-> x.f]
Whole(x) == x.nv = x.nn /\ x.nv = x.nt /\ Len(x.v) = Len(x.iv) /\ Len(x.f) = Len(x.if)
            /\ \A k \in DOMAIN x.v : Len(x.v[k]) = 3 /\ Len(x.m[k]) = 3 /\ Len(x.t[k]) = 2
WhyFile(fmt, y) ==
  CASE y.error # "" -> y.error
    [] fmt # "obj" /\ WhyDoc(y.doc) # "" -> WhyDoc(y.doc)
    [] ~Whole(y.mesh) -> "attributes of vertices are missing"
    [] OTHER -> ""
WhyMesh(t) ==
  LET w == WhyFile(t.fmt, t.file) IN
  CASE w # "" -> w
    [] t.file.mesh.n # t.name -> "name"
    [] t.file.mesh.nv # t.nv -> "number of vertices"
    [] t.file.mesh.nf # t.nf -> "number of triangles"
    [] OTHER -> WhyContent(t.fmt, [v |-> t.v, f |-> t.f], Seen(t.file.mesh))
WhyMade(t) ==
  LET o == WhyFile("obj", t.obj) b == WhyFile("glb", t.glb) g == WhyFile("gltf", t.gltf) IN
  CASE o # "" -> "obj: " \o o
    [] b # "" -> "glb: " \o b
    [] g # "" -> "gltf: " \o g
    [] t.glb.mesh # t.gltf.mesh -> "glb and gltf differ"
    [] t.obj.mesh.nv # t.gltf.mesh.nv -> "number of vertices"
    [] t.obj.mesh.nf # t.gltf.mesh.nf -> "number of triangles"
    [] t.obj.mesh.nf = 0 -> "no triangles"
    [] OTHER -> WhyPair(Seen(t.obj.mesh), Seen(t.gltf.mesh), 1)
(* the folder: the primitives' files, and generated ones only if asked for  *)
Set(s) == {s[k] : k \in DOMAIN s}
WhyFolder(t) ==
  CASE t.other # <<>> -> "file of another format"
    [] t.fmt = "gltf" /\ (Set(t.bins) # Set(t.files) \/ Len(t.bins) # Len(t.files)) -> "buffer files"
    [] t.fmt # "gltf" /\ t.bins # <<>> -> "buffer files"
    [] Cardinality(Set(t.want)) # t.count -> "meshes share a file"
    [] \E k \in DOMAIN t.want : t.want[k] \notin Set(t.files) -> "mesh file is missing"
    [] ~t.derived /\ Set(t.files) # Set(t.want) -> "mesh file that was not asked for"
    [] OTHER -> ""
WhyT(t) == CASE t.kind = "mesh" -> WhyMesh(t) [] t.kind = "made" -> WhyMade(t) [] t.kind = "folder" -> WhyFolder(t) [] OTHER -> "not extracted"
Init == i = 1
Next == /\ i <= Len(T) /\ i' = i + 1
        /\ LET w == WhyT(T[i]) IN w # "" => PrintT("VP " \o ToJson([id |-> T[i].id, why |-> w]))
=============================================================================
