------------------------------- MODULE Scene -------------------------------
(* The glTF exporter: it walks the items of a table, collects the meshes    *)
(* and then fills one buffer and the lists that refer to each other.        *)
(* Sizes: 3 vertices a part (or many more than 2 bytes can count), images of an odd   *)
(* number of bytes.                                                         *)
EXTENDS SceneDoc, FiniteSets, TLC

CONSTANTS Flaws,    \* set of mistakes to make (none: the design)
          Pool,     \* the items a table may have
          N,        \* how many
          PfImages, \* the playfield image: "none", "ok", "nodata"
          Narrow    \* more vertices than this need 4-byte indices
VARIABLES its, inv, old, pfi, ph, k, ms, d, tex, mat, mix, groups, layers, ginfo
vars == <<its, inv, old, pfi, ph, k, ms, d, tex, mat, mix, groups, layers, ginfo>>

Bad(f) == f \in Flaws
Empty == [buf |-> <<0>>, decl |-> <<0>>, views |-> << >>, order |-> << >>, acc |-> << >>, meshes |-> << >>, nodes |-> << >>, depth |-> << >>,
          roots |-> << >>, scene |-> 0, nscenes |-> 1, narrow |-> Narrow, mats |-> << >>, textures |-> << >>, images |-> << >>, nsamp |-> 0, nlights |-> 2, ncams |-> 0]
NoF == [x \in {} |-> 0]
None == [n |-> "", v |-> TRUE, nv |-> 0, nf |-> 0, img |-> "", mat |-> "", layer |-> "", group |-> ""]

Init == /\ its = << >> /\ inv \in BOOLEAN /\ old \in BOOLEAN /\ pfi \in PfImages /\ ph = "items" /\ k = 1 /\ ms = << >> /\ d = Empty
        /\ tex = NoF /\ mat = NoF /\ mix = NoF /\ groups = NoF /\ layers = NoF /\ ginfo = << >>
AddItem == ph = "items" /\ Len(its) < N /\ \E x \in Pool : its' = Append(its, x)
           /\ UNCHANGED <<inv, old, pfi, ph, k, ms, d, tex, mat, mix, groups, layers, ginfo>>

PfPic == IF pfi = "ok" THEN "pf" ELSE ""
(* the meshes of item it *)
MeshesOf(it) ==
  LET ps == IF Bad("builder") THEN SelectSeq(GltfParts(it, inv, old, PfPic), LAMBDA p : p.v \/ it.kind \notin {"gate", "flipper"})
            ELSE IF Bad("leak") THEN GltfParts(it, inv \/ it.kind = "light", old, PfPic) ELSE GltfParts(it, inv, old, PfPic) IN
  [i \in DOMAIN ps |-> [n |-> ps[i].n, v |-> ps[i].v, nv |-> it.nv, nf |-> it.nf, img |-> ps[i].i, mat |-> it.mat, layer |-> it.layer, group |-> it.name]]
Collect ==
  /\ ph = "items"
  /\ LET m == Cat(MeshesOf, its)
         pf == \E i \in DOMAIN its : IsPlayfield(its[i], inv, old) IN
       ms' = m \o If(~pf, <<[None EXCEPT !.n = "playfield_mesh", !.nv = 4, !.nf = 2, !.mat = "pf", !.img = PfPic]>>)
  /\ ginfo' = [i \in DOMAIN its |-> [name |-> its[i].name, layer |-> its[i].layer]]
  /\ ph' = "playfield" /\ UNCHANGED <<its, inv, old, pfi, k, d, tex, mat, mix, groups, layers>>

Pad(n, a) == n + ((a - (n % a)) % a)
Room(e, len) == [e EXCEPT !.buf = <<@[1] + len>>]
Fill(e) == [e EXCEPT !.buf = <<Pad(@[1], 4)>>]
AddView(e, len) == Room([e EXCEPT !.views = Append(@, [b |-> 0, off |-> e.buf[1], len |-> len])], len)
AddImage(e, name) ==      \* data, view, image, texture
  LET v == Len(e.views)
      f == Fill(AddView(e, 5)) IN
  [f EXCEPT !.nsamp = 1, !.images = Append(@, [view |-> v, name |-> name]), !.textures = Append(@, [samp |-> 0, src |-> Len(e.images)])]

Playfield ==
  /\ ph = "playfield"
  /\ IF pfi = "ok" \/ (pfi = "nodata" /\ Bad("nodata"))
     THEN LET e == IF pfi = "ok" THEN AddImage(d, "pf") ELSE [d EXCEPT !.textures = Append(@, [samp |-> 0, src |-> 0])] IN
          d' = [e EXCEPT !.mats = Append(@, <<Len(e.textures) - 1>>)] /\ mat' = ("pf" :> 0)
     ELSE UNCHANGED <<d, mat>>
  /\ ph' = "tex" /\ k' = 1 /\ UNCHANGED <<its, inv, old, pfi, ms, tex, mix, groups, layers, ginfo>>
(* pictures of the meshes, each once *)
Tex ==
  /\ ph = "tex"
  /\ IF k > Len(ms)
     THEN /\ ph' = "mat" /\ k' = 1 /\ UNCHANGED tex      \* then the materials of the table
          /\ d' = [d EXCEPT !.mats = Append(@, << >>)] /\ mat' = mat @@ ("wood" :> Len(d.mats))
     ELSE /\ k' = k + 1 /\ UNCHANGED <<ph, mat>>
          /\ IF ms[k].img \notin {"", "pf"} /\ ms[k].img \notin DOMAIN tex
             THEN d' = AddImage(d, ms[k].img) /\ tex' = (ms[k].img :> IF Bad("texnumber") THEN Cardinality(DOMAIN tex) ELSE Len(d.textures)) @@ tex
             ELSE UNCHANGED <<d, tex>>
  /\ UNCHANGED <<its, inv, old, pfi, ms, mix, groups, layers, ginfo>>
(* a material for each picture in use *)
Mat ==
  /\ ph = "mat"
  /\ IF k > Len(ms) THEN ph' = "mesh" /\ k' = 1 /\ UNCHANGED <<d, mix>>
     ELSE /\ k' = k + 1 /\ UNCHANGED ph
          /\ IF ms[k].img \in DOMAIN tex /\ ms[k].img \notin DOMAIN mix
             THEN /\ d' = [d EXCEPT !.mats = Append(@, <<tex[ms[k].img]>>)]
                  /\ mix' = (ms[k].img :> IF Bad("matnumber") THEN Len(d.mats) + 1 ELSE Len(d.mats)) @@ mix
             ELSE UNCHANGED <<d, mix>>
  /\ UNCHANGED <<its, inv, old, pfi, ms, tex, mat, groups, layers, ginfo>>

Hang(f, key, n) == IF key \in DOMAIN f THEN [f EXCEPT ![key] = Append(@, n)] ELSE (key :> <<n>>) @@ f
Node(mesh, light, cam, ch) == [mesh |-> mesh, light |-> light, cam |-> cam, ch |-> ch]
AddNode(e, n) == [e EXCEPT !.nodes = Append(@, n)]
Mesh ==
  /\ ph = "mesh"
  /\ IF k > Len(ms)
     THEN /\ ph' = "lights" /\ k' = 1 /\ UNCHANGED <<groups, layers>>
          /\ d' = Fill(d)
     ELSE LET m == ms[k]
              wide == IF Bad("width") THEN m.nf * 3 > Narrow ELSE m.nv > Narrow
              b == IF Bad("viewbase") THEN 4 * (k - 1) ELSE Len(d.views)
              a == Len(d.acc)
              e0 == IF Bad("unpadded") THEN d ELSE Fill(d)
              e == AddView(AddView(AddView(AddView(e0, 12 * m.nv), 12 * m.nv), 8 * m.nv), (IF wide THEN 4 ELSE 2) * 3 * m.nf)
              acc(v, size, comps, count, hi, bounds) == [view |-> b + v, off |-> 0, size |-> size, comps |-> comps, count |-> count, hi |-> hi, bounds |-> bounds]
              material == IF m.img \in DOMAIN mix THEN mix[m.img] ELSE IF m.img = "pf" \/ (Bad("pfmaterial") /\ m.mat = "wood" /\ "pf" \in DOMAIN mat) THEN mat["pf"] ELSE IF m.mat \in DOMAIN mat \ {"pf"} THEN mat[m.mat] ELSE -1
              top == IF wide \/ m.nv - 1 < Narrow THEN m.nv - 1 ELSE Narrow      \* what fits
              f == [e EXCEPT !.acc = @ \o <<acc(0, 4, 3, m.nv, -1, "ok"), acc(1, 4, 3, m.nv, -1, "none"), acc(2, 4, 2, m.nv, -1, "none"),
                                            acc(3, IF wide THEN 4 ELSE 2, 1, 3 * m.nf, top, "none")>>,
                             !.meshes = Append(@, <<[pos |-> a, nor |-> a + 1, tex |-> a + 2, idx |-> a + 3, mat |-> material]>>)]
              n == Len(d.nodes) IN
          /\ k' = k + 1 /\ UNCHANGED ph
          /\ d' = LET g == AddNode(f, Node(k - 1, -1, -1, << >>)) IN IF m.group = "" THEN [g EXCEPT !.roots = Append(@, n)] ELSE g
          /\ groups' = IF m.group = "" THEN groups ELSE Hang(groups, m.group, n)
          /\ layers' = IF Bad("twoparents") /\ m.group # "" /\ m.layer # "" THEN Hang(layers, m.layer, n) ELSE layers
  /\ UNCHANGED <<its, inv, old, pfi, ms, tex, mat, mix, ginfo>>
Lights ==
  /\ ph = "lights"
  /\ LET gi == Cat(LAMBDA it : GltfLight(it, inv, old), its)
         add(i) == Node(-1, i - 1, -1, << >>)
         n == Len(d.nodes) IN
       /\ d' = [d EXCEPT !.nodes = @ \o [i \in 1..(Len(gi) + 2) |-> add(i)], !.nlights = Len(gi) + (IF Bad("lightlist") THEN 1 ELSE 2), !.roots = @ \o <<n, n + 1>>]
       /\ groups' = LET hang[i \in 0..Len(gi)] == IF i = 0 THEN groups ELSE Hang(hang[i - 1], gi[i], n + 1 + i) IN hang[Len(gi)]
  /\ ph' = "groups" /\ k' = 1 /\ UNCHANGED <<its, inv, old, pfi, ms, tex, mat, mix, layers, ginfo>>
(* a node for each item with more than one part, below its layer *)
Groups ==
  /\ ph = "groups"
  /\ IF k > Len(ginfo) THEN ph' = "layers" /\ k' = 1 /\ UNCHANGED <<d, groups, layers>>
     ELSE /\ k' = k + 1 /\ UNCHANGED ph
          /\ LET g == ginfo[k] IN
             IF g.name \in DOMAIN groups
             THEN LET ch == groups[g.name]
                      one == Len(ch) = 1
                      n == IF one THEN ch[1] ELSE Len(d.nodes)
                      e == IF one THEN d ELSE AddNode(d, Node(-1, -1, -1, ch)) IN
                  /\ d' = IF g.layer = "" THEN [e EXCEPT !.roots = Append(@, n)] ELSE e
                  /\ layers' = IF g.layer = "" THEN layers ELSE IF Bad("onelayer") /\ DOMAIN layers # {} THEN layers ELSE Hang(layers, g.layer, n)
                  /\ groups' = IF Bad("again") THEN groups ELSE [x \in DOMAIN groups \ {g.name} |-> groups[x]]
             ELSE UNCHANGED <<d, groups, layers>>
  /\ UNCHANGED <<its, inv, old, pfi, ms, tex, mat, mix, ginfo>>
Layers ==
  /\ ph = "layers"
  /\ IF DOMAIN layers = {} THEN ph' = "root" /\ UNCHANGED <<d, layers>>
     ELSE \E l \in DOMAIN layers :
            /\ d' = LET n == Len(d.nodes) IN [AddNode(d, Node(-1, -1, -1, layers[l])) EXCEPT !.roots = Append(@, n)]
            /\ layers' = [x \in DOMAIN layers \ {l} |-> layers[x]] /\ UNCHANGED ph
  /\ UNCHANGED <<its, inv, old, pfi, k, ms, tex, mat, mix, groups, ginfo>>
(* three cameras, and one node above all *)
Depth(e) ==
  LET n == Len(e.nodes)
      up[i \in 0..(n - 1)] == IF i = n - 1 THEN 0 ELSE
         LET ps == {j \in 0..(n - 1) : \E q \in DOMAIN e.nodes[j + 1].ch : e.nodes[j + 1].ch[q] = i} IN
         IF ps = {} THEN 0 ELSE 1 + up[CHOOSE j \in ps : TRUE] IN
  [i \in 1..n |-> up[i - 1]]
Root ==
  /\ ph = "root"
  /\ LET n == Len(d.nodes)
         e == [d EXCEPT !.nodes = @ \o [i \in 1..3 |-> Node(-1, -1, i - 1, << >>)], !.ncams = 3, !.roots = @ \o <<n, n + 1, n + 2>>]
         f == [e EXCEPT !.nodes = Append(@, Node(-1, -1, -1, e.roots)), !.roots = <<Len(e.nodes)>>,
                        !.decl = <<IF Bad("declared") THEN e.buf[1] - 2 ELSE e.buf[1]>>,
                        !.order = [i \in DOMAIN e.views |-> i - 1]] IN
       d' = [f EXCEPT !.depth = Depth(f)]
  /\ ph' = "done" /\ UNCHANGED <<its, inv, old, pfi, k, ms, tex, mat, mix, groups, layers, ginfo>>
Done == ph = "done" /\ UNCHANGED vars
Next == AddItem \/ Collect \/ Playfield \/ Tex \/ Mat \/ Mesh \/ Lights \/ Groups \/ Layers \/ Root \/ Done
Spec == Init /\ [][Next]_vars

Sound == ph = "done" => WhyDoc(d) = ""
(* exactly the parts, each as it is shown and with its own picture *)
Complete == ph = "done" =>
  LET got == [i \in DOMAIN d.meshes |-> [n |-> ms[i].n, v |-> ms[i].v, i |-> Shows(d, i - 1)]] want == Painted(GltfWant(its, inv, old, PfPic)) IN
  Exactly(got, want, want) /\ d.nlights = Len(GltfLights(its, inv, old))
(* what a viewer that knows no visibility shows is visible *)
Hidden == ph = "done" /\ ~inv => \A i \in DOMAIN ms : ms[i].v
(* the buffer only grows, and what is written stays *)
Grows == [][/\ d'.buf[1] >= d.buf[1]
            /\ \A i \in DOMAIN d.views : d'.views[i] = d.views[i]
            /\ \A i \in DOMAIN d.acc : d'.acc[i] = d.acc[i]
            /\ \A i \in DOMAIN d.mats : d'.mats[i] = d.mats[i]]_vars
=============================================================================
