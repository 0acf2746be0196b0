------------------------------ MODULE SceneMC ------------------------------
EXTENDS Scene, Json
CONSTANTS Emit
Item == [kind |-> "ball", name |-> "a", layer |-> "", vis |-> TRUE, vis2 |-> TRUE, sub |-> "", geo |-> "ok", on |-> <<FALSE, FALSE, FALSE, FALSE>>,
         img |-> "", img2 |-> "", pic |-> "", pic2 |-> "", mat |-> "", mat2 |-> "", matc |-> "", matc2 |-> "", lay |-> "", pf |-> FALSE, gi |-> FALSE, nv |-> 3, nf |-> 1]
MCPool == {
  Item,
  [Item EXCEPT !.name = "b", !.on = <<TRUE, FALSE, FALSE, FALSE>>, !.img = "p", !.pic = "p", !.nf = 2, !.layer = "L"],
  [Item EXCEPT !.kind = "primitive", !.sub = "mesh", !.nf = 1, !.nv = 4, !.img = "p", !.pic = "p", !.layer = "L"],
  [Item EXCEPT !.kind = "primitive", !.sub = "mesh", !.vis = FALSE, !.pf = TRUE, !.name = "playfield_mesh", !.mat = "pf", !.nf = 2, !.nv = 9],
  [Item EXCEPT !.kind = "wall", !.vis2 = FALSE, !.img = "q", !.pic = "q", !.layer = "M"],
  [Item EXCEPT !.kind = "wall", !.name = "b", !.mat = "wood", !.nf = 3],
  [Item EXCEPT !.kind = "gate", !.vis = FALSE, !.mat = "wood"],
  [Item EXCEPT !.kind = "light", !.gi = TRUE, !.name = "gi", !.on = <<FALSE, TRUE, TRUE, FALSE>>, !.layer = "L"],
  [Item EXCEPT !.kind = "light", !.gi = TRUE, !.name = "gi2", !.geo = "none", !.layer = "M"],
  [Item EXCEPT !.kind = "light", !.gi = TRUE, !.vis = FALSE, !.layer = "L"],
  [Item EXCEPT !.kind = "timer"] }
MCNone == {}
=============================================================================
