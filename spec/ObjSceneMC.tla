----------------------------- MODULE ObjSceneMC -----------------------------
EXTENDS ObjScene
Item == [kind |-> "ramp", name |-> "r", vis |-> TRUE, vis2 |-> TRUE, sub |-> "Flat", geo |-> "ok", on |-> <<FALSE, FALSE, FALSE, FALSE>>,
         img |-> "", img2 |-> "", pic |-> "", pic2 |-> "", mat |-> "", mat2 |-> "", matc |-> "", matc2 |-> "", lay |-> "", pf |-> FALSE, gi |-> FALSE, nv |-> 3, nf |-> 1]
MCPool == {
  Item,
  [Item EXCEPT !.mat = "A B", !.img = "a/b", !.pic = "a/b"],
  [Item EXCEPT !.mat = "AB", !.nv = 7, !.nf = 2],
  [Item EXCEPT !.mat = "A B", !.img = "a_b", !.pic = "a_b"],
  [Item EXCEPT !.mat = "A", !.img = "a_b", !.pic = "a_b"],
  [Item EXCEPT !.mat = "A__a_b"],
  [Item EXCEPT !.kind = "wall", !.mat = "A", !.mat2 = "A B", !.img2 = "a_b", !.pic2 = "a_b"],
  [Item EXCEPT !.kind = "wall", !.vis2 = FALSE, !.img = "a_b", !.pic = "a_b"],
  [Item EXCEPT !.kind = "spinner", !.mat = "A", !.vis2 = FALSE, !.nf = 5],
  [Item EXCEPT !.kind = "bumper", !.on = <<FALSE, FALSE, TRUE, TRUE>>, !.mat2 = "AB"],
  [Item EXCEPT !.kind = "plunger", !.sub = "Flat", !.img = "a/b", !.pic = "a/b"],
  [Item EXCEPT !.vis = FALSE] }
=============================================================================
