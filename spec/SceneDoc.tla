------------------------------ MODULE SceneDoc ------------------------------
(* What makes a glTF document sound.  References count from 0; -1 is none.  *)
(*   buf      bytes present in each buffer;  decl  bytes declared           *)
(*   views    [b, off, len, ...]   order  the views by where they lie       *)
(*   acc      [view, off, size (of a component), comps, count, hi (largest  *)
(*            value of an index accessor), bounds ("ok", "bad", "none")]    *)
(*   meshes   sequences of [pos, nor, tex, idx, mat]                        *)
(*   nodes    [mesh, light, cam, ch]  depth  how far below its scene a node *)
(*   roots    the nodes of the scenes  scene  the scene shown               *)
(*   mats     textures each material uses     textures [samp, src]          *)
(*   images   [view, name]   nsamp, nlights, ncams, nscenes                 *)
(*   narrow   the largest number that 2 bytes hold                          *)
EXTENDS Integers, Sequences, Parts

Has(i, s) == i >= 0 /\ i < Len(s)
Within(i, n) == i >= 0 /\ i < n
At(s, i) == s[i + 1]

Sizes(d) == Len(d.buf) = Len(d.decl) /\ \A i \in DOMAIN d.buf : d.buf[i] = d.decl[i]
Inside(d) == \A i \in DOMAIN d.views : LET v == d.views[i] IN
   Has(v.b, d.buf) /\ v.off >= 0 /\ v.len >= 1 /\ v.off + v.len <= At(d.buf, v.b)
Disjoint(d) ==
  /\ Len(d.order) = Len(d.views) /\ {d.order[i] : i \in DOMAIN d.order} = 0..(Len(d.views) - 1)
  /\ \A i \in 1..(Len(d.order) - 1) : LET a == At(d.views, d.order[i]) b == At(d.views, d.order[i + 1]) IN
        a.b < b.b \/ (a.b = b.b /\ a.off + a.len <= b.off)
AccessorsFit(d) == \A i \in DOMAIN d.acc : LET a == d.acc[i] IN
  Has(a.view, d.views) /\ a.count >= 1 /\ a.off >= 0 /\ a.off + a.size * a.comps * a.count = At(d.views, a.view).len
Aligned(d) == \A i \in DOMAIN d.acc : (At(d.views, d.acc[i].view).off + d.acc[i].off) % d.acc[i].size = 0
Meshes(d) == \A i \in DOMAIN d.meshes : \A j \in DOMAIN d.meshes[i] : LET p == d.meshes[i][j] IN
  /\ \A x \in {p.pos, p.nor, p.tex, p.idx} : Has(x, d.acc)
  /\ p.mat = -1 \/ Has(p.mat, d.mats)
  /\ At(d.acc, p.pos).comps = 3 /\ At(d.acc, p.nor).comps = 3 /\ At(d.acc, p.tex).comps = 2 /\ At(d.acc, p.idx).comps = 1
Corners(d) == \A i \in DOMAIN d.meshes : \A j \in DOMAIN d.meshes[i] : LET p == d.meshes[i][j] n == At(d.acc, p.pos).count IN
  /\ At(d.acc, p.nor).count = n /\ At(d.acc, p.tex).count = n
  /\ At(d.acc, p.idx).hi < n /\ At(d.acc, p.idx).count % 3 = 0
(* a value of all ones is no index *)
NoRestart(d) == \A i \in DOMAIN d.acc : d.acc[i].size = 2 => d.acc[i].hi < d.narrow
Bounds(d) == \A i \in DOMAIN d.meshes : \A j \in DOMAIN d.meshes[i] : At(d.acc, d.meshes[i][j].pos).bounds = "ok"
Paint(d) ==
  /\ \A i \in DOMAIN d.mats : \A j \in DOMAIN d.mats[i] : Has(d.mats[i][j], d.textures)
  /\ \A i \in DOMAIN d.textures : (d.textures[i].samp = -1 \/ Within(d.textures[i].samp, d.nsamp)) /\ Has(d.textures[i].src, d.images)
  /\ \A i \in DOMAIN d.images : Has(d.images[i].view, d.views)
(* the picture mesh i shows, or none *)
Shows(d, i) == LET m == At(d.meshes, i)[1].mat IN
  IF m = -1 \/ At(d.mats, m) = << >> THEN "" ELSE At(d.images, At(d.textures, At(d.mats, m)[1]).src).name
(* views of pictures hold pictures only *)
OwnBytes(d) == {d.images[i].view : i \in DOMAIN d.images} \cap {d.acc[i].view : i \in DOMAIN d.acc} = {}
NodeRefs(d) == \A i \in DOMAIN d.nodes : LET n == d.nodes[i] IN
  /\ n.mesh = -1 \/ Has(n.mesh, d.meshes)
  /\ n.light = -1 \/ Within(n.light, d.nlights)
  /\ n.cam = -1 \/ Within(n.cam, d.ncams)
  /\ \A j \in DOMAIN n.ch : Has(n.ch[j], d.nodes)
Flat(s) == FlattenSeq([i \in DOMAIN s |-> s[i].ch])
(* every node hangs in the scene exactly once *)
Tree(d) ==
  LET all == Flat(d.nodes) \o d.roots IN
  /\ Within(d.scene, d.nscenes) /\ d.nscenes = 1
  /\ Len(all) = Len(d.nodes) /\ {all[i] : i \in DOMAIN all} = 0..(Len(d.nodes) - 1)
  /\ \A i \in DOMAIN d.nodes : \A j \in DOMAIN d.nodes[i].ch : At(d.depth, d.nodes[i].ch[j]) = d.depth[i] + 1
(* every mesh, light and camera is put in the scene once *)
Once(d) ==
  LET u(n, f(_)) == LET x == SelectSeq(d.nodes, LAMBDA q : f(q) # -1) IN Len(x) = n /\ {f(x[i]) : i \in DOMAIN x} = 0..(n - 1) IN
  u(Len(d.meshes), LAMBDA q : q.mesh) /\ u(d.nlights, LAMBDA q : q.light) /\ u(d.ncams, LAMBDA q : q.cam)

WhyDoc(d) ==
  CASE ~Sizes(d) -> "declared buffer size"
    [] ~Inside(d) -> "range outside its buffer"
    [] ~Disjoint(d) -> "ranges overlap"
    [] ~AccessorsFit(d) -> "accessor does not match its range"
    [] ~Aligned(d) -> "data not aligned"
    [] ~Meshes(d) -> "reference of a mesh"
    [] ~Corners(d) -> "index without vertex"
    [] ~NoRestart(d) -> "index that is no index"
    [] ~Bounds(d) -> "declared bounds"
    [] ~Paint(d) -> "reference of a material, texture or image"
    [] ~OwnBytes(d) -> "image shares its range"
    [] ~NodeRefs(d) -> "reference of a node"
    [] ~Tree(d) -> "nodes do not form one scene"
    [] ~Once(d) -> "mesh, light or camera not in the scene once"
    [] OTHER -> ""
=============================================================================
