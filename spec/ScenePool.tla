----------------------------- MODULE ScenePool -----------------------------
(* Every kind of item with every combination of what decides its parts, and *)
(* tables of them.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, Parts
CONSTANTS N, Emit
B == BOOLEAN
Item == [kind |-> "timer", vis |-> TRUE, vis2 |-> TRUE, sub |-> "", geo |-> "ok", on |-> <<FALSE, FALSE, FALSE, FALSE>>, img |-> "", img2 |-> "",
         mat |-> "", mat2 |-> "", matc |-> "", matc2 |-> "", pf |-> FALSE, gi |-> FALSE, lay |-> ""]
Geos == {"ok", "none", "any"}
Kinds ==
  {[Item EXCEPT !.kind = "primitive", !.sub = s, !.vis = v, !.pf = p] : s \in {"builtin", "mesh", "nomesh", "empty", "sides2"}, v \in B, p \in B}
  \cup {[Item EXCEPT !.kind = "wall", !.vis = v, !.vis2 = w, !.geo = g] : v \in B, w \in B, g \in Geos}
  \cup {[Item EXCEPT !.kind = "ramp", !.vis = v, !.sub = s, !.geo = g] : v \in B, g \in Geos, s \in {"Flat", "OneWire", "TwoWire", "ThreeWireLeft", "ThreeWireRight", "FourWire"}}
  \cup {[Item EXCEPT !.kind = k, !.vis = v, !.geo = g] : k \in {"rubber", "flasher"}, v \in B, g \in Geos}
  \cup {[Item EXCEPT !.kind = k, !.vis = v, !.vis2 = w] : k \in {"flipper", "spinner"}, v \in B, w \in B}
  \cup {[Item EXCEPT !.kind = "bumper", !.on = <<a, b, c, d>>] : a \in B, b \in B, c \in B, d \in B}
  \cup {[Item EXCEPT !.kind = "hittarget", !.vis = v, !.sub = s] : v \in B,
        s \in {"DropTargetBeveled", "DropTargetSimple", "HitTargetRound", "HitTargetRectangle", "HitFatTargetRectangle", "HitFatTargetSquare",
               "DropTargetFlatSimple", "HitFatTargetSlim", "HitTargetSlim"}}
  \cup {[Item EXCEPT !.kind = "gate", !.vis = v, !.vis2 = w, !.sub = s] : v \in B, w \in B, s \in {"", "WireW", "WireRectangle", "Plate", "LongPlate"}}
  \cup {[Item EXCEPT !.kind = "trigger", !.vis = v, !.sub = s] : v \in B, s \in {"None", "WireA", "WireB", "WireC", "WireD", "Star", "Button", "Inder"}}
  \cup {[Item EXCEPT !.kind = "light", !.vis = v, !.on = <<a, b, c, FALSE>>, !.gi = g, !.geo = h] : v \in B, a \in B, b \in B, c \in B, g \in B, h \in Geos}
  \cup {[Item EXCEPT !.kind = "plunger", !.vis = v, !.sub = s] : v \in B, s \in {"Unknown", "Modern", "Flat", "Custom"}}
  \cup {[Item EXCEPT !.kind = "kicker", !.sub = s] : s \in {"Invisible", "Hole", "Cup", "HoleSimple", "Williams", "Gottlieb", "Cup2"}}
  \cup {[Item EXCEPT !.kind = "decal", !.sub = s, !.on = <<a, FALSE, FALSE, FALSE>>] : s \in {"Image", "Text"}, a \in B}
  \cup {[Item EXCEPT !.kind = "ball", !.on = <<a, FALSE, FALSE, FALSE>>] : a \in B}
  \cup {[Item EXCEPT !.kind = k] : k \in {"timer", "reel", "textbox", "lightseq", "partgroup"}}
Imgs == {"", "one", "two", "bits", "gone"}
Mats == {"", "wood", "steel", "missing", "felt"}
VARIABLES its, opt, ph
vars == <<its, opt, ph>>
Opts == IF N = 1 THEN [inv : B, old : B, pfimg : {"", "two"}, pfmat : {"felt"}, count : {1}]
        ELSE [inv : B, old : B, pfimg : {"", "one", "bits", "gone", "empty"}, pfmat : {"", "wood", "felt", "missing"}, count : 2..N]
Init == its = << >> /\ opt \in Opts /\ ph = "add"
Add == /\ ph = "add" /\ Len(its) < opt.count
       /\ \E x \in Kinds : its' = Append(its, x) /\ ph' = IF N = 1 THEN "done" ELSE "dress"
       /\ UNCHANGED opt
Dress == /\ ph = "dress" /\ ph' = "add" /\ UNCHANGED opt
         /\ \E g \in Imgs : \E g2 \in {g, "two"} : \E m \in Mats : \E m2 \in {m, "steel"} : \E l \in {"", "L", "7"} :
              its' = [its EXCEPT ![Len(its)] = [@ EXCEPT !.img = g, !.img2 = g2, !.mat = m, !.mat2 = m2, !.lay = l]]
Finish == ph = "add" /\ Len(its) = opt.count /\ ph' = "done" /\ UNCHANGED <<its, opt>>
Next == Add \/ Dress \/ Finish
Spec == Init /\ [][Next]_vars
Out == (Emit # {} /\ ph = "done") => PrintT("VP " \o ToJson([its |-> its, opt |-> opt]))
=============================================================================
