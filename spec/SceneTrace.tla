----------------------------- MODULE SceneTrace -----------------------------
(* glTF and GLB files the library exported, judged.                         *)
EXTENDS SceneDoc, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
(* what each mesh node shows *)
Got(d) == LET x == SelectSeq(d.nodes, LAMBDA q : q.mesh # -1) IN
  [i \in DOMAIN x |-> [n |-> x[i].n, v |-> x[i].v, i |-> Shows(d, x[i].mesh)]]
GotColours(d) == LET x == SelectSeq(d.nodes, LAMBDA q : q.mesh # -1) IN
  [i \in DOMAIN x |-> LET m == At(d.meshes, x[i].mesh)[1].mat IN [n |-> x[i].n, c |-> IF m = -1 THEN "none" ELSE At(d.colors, m)]]
GotLights(d) == LET x == SelectSeq(d.nodes, LAMBDA q : q.light # -1) IN [i \in DOMAIN x |-> [n |-> x[i].n, v |-> x[i].v]]
GotLayers(d) == LET x == SelectSeq(d.nodes, LAMBDA q : q.light # -1 \/ q.mesh # -1) IN [i \in DOMAIN x |-> [n |-> x[i].n, l |-> x[i].l]]
Strip(s) == [i \in DOMAIN s |-> s[i].n]
NV(s) == [i \in DOMAIN s |-> [n |-> s[i].n, v |-> s[i].v]]
Why(t) ==
  IF t.result # "ok" THEN "not exported"
  ELSE IF t.file # "" THEN t.file
  ELSE LET why == WhyDoc(t.doc) IN
    IF why # "" THEN why
    ELSE LET got == Got(t.doc)
             may == GltfWant(t.its, t.inv, t.old, t.pfpic)
             sure == Sure(t.its)
             must == Cat(LAMBDA it : GltfParts(it, t.inv, t.old, t.pfpic), sure)
                     \o If(~\E i \in DOMAIN t.its : IsPlayfield(t.its[i], t.inv, t.old), P("playfield_mesh", TRUE, t.pfpic))
             lights == Glow(t.its, t.inv, t.old) IN
      CASE ~Exactly(Strip(got), Strip(must), Strip(may)) -> "parts"
        [] ~Exactly(NV(got), NV(must), NV(may)) -> "visibility of parts"
        [] ~Exactly(got, Painted(must), Painted(may)) -> "pictures of parts"
        [] ~Colours(GotColours(t.doc), may) -> "colours of parts"
        [] ~Exactly(GotLights(t.doc), lights, lights) -> "lights"
        [] ~Layered(GotLayers(t.doc), GltfLayers(t.its, t.inv, t.old, t.pfpic)) -> "layers of parts"
        [] \E i \in DOMAIN t.pixels : t.pixels[i] # "same" -> "image data"
        [] ~(ToSet(t.used) \subseteq ToSet(t.declared)) -> "extension not declared"
        [] OTHER -> ""
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Cases) /\ i' = i + 1
        /\ LET w == Why(Cases[i]) IN w # "" => PrintT("VP " \o ToJson([id |-> Cases[i].id, why |-> w]))
Spec == Init /\ [][Next]_i
=============================================================================
