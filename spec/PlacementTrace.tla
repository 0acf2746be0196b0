--------------------------- MODULE PlacementTrace ---------------------------
(* Exports the library made, judged.                                        *)
EXTENDS Placement, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
First(s) == IF \E k \in 1..Len(s) : s[k] # "" THEN s[CHOOSE k \in 1..Len(s) : s[k] # "" /\ \A j \in 1..k - 1 : s[j] = ""] ELSE ""
In(fmt, w) == IF w = "" THEN "" ELSE fmt \o " " \o w
Why(t) ==
  CASE t.result # "ok" -> "not exported"
    [] t.judge = "move" -> First(<<In("gltf", WhyMoved(t, "gltf")), In("obj", WhyMoved(t, "obj")), WhyLights(t)>>)
    [] t.judge = "units" -> WhyUnits(t)
    [] t.judge = "agree" -> WhyAgree(t)
    [] t.judge = "mesh" -> First(<<In("gltf", WhyMesh(t, "gltf")), In("obj", WhyMesh(t, "obj"))>>)
    [] t.judge = "wall" -> First(<<In("gltf", WhyWall(t, "gltf")), In("obj", WhyWall(t, "obj"))>>)
    [] t.judge = "table" -> WhyTable(t)
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Cases) /\ i' = i + 1
        /\ LET w == Why(Cases[i]) IN w # "" => PrintT("VP " \o ToJson([id |-> Cases[i].id, why |-> w]))
Spec == Init /\ [][Next]_i
=============================================================================
