------------------------------ MODULE LooksMC ------------------------------
(* The exporter giving the parts of a scene their looks: parts that look    *)
(* the same may share one.                                                  *)
EXTENDS Looks, TLC
CONSTANTS Flaws, N
Bad(f) == f \in Flaws
M(c, oa, op, metal, shine) == [c |-> c, oa |-> oa, op |-> op, metal |-> metal, shine |-> shine]
T == [mats |-> [white |-> M("ffffff", FALSE, 300, FALSE, 0), glass |-> M("ffffff", TRUE, 500, FALSE, 0), rough |-> M("ffffff", FALSE, 1000, FALSE, 900),
                wood |-> M("783c14", TRUE, 999, FALSE, 0), chrome |-> M("ffffff", TRUE, 1000, TRUE, 800), tint |-> M("0a6e28", TRUE, 250, TRUE, 800)],
      clear |-> <<"q">>, old |-> FALSE]
Part == [mat : {"", "missing"} \cup DOMAIN T.mats, img : {"", "p", "q", "gone"}, below : {-1, 0, 300, 1000}]
Pic(p) == IF p.img = "gone" /\ ~Bad("gone") THEN "" ELSE p.img
VARIABLES ps, k, list, shared, of
vars == <<ps, k, list, shared, of>>
Init == ps = << >> /\ k = 0 /\ list = << >> /\ shared = << >> /\ of = << >>
Add == k = 0 /\ Len(ps) < N /\ \E p \in Part : ps' = Append(ps, p) /\ UNCHANGED <<k, list, shared, of>>
Go == k = 0 /\ ps # << >> /\ k' = 1 /\ UNCHANGED <<ps, list, shared, of>>
(* the look the exporter makes *)
Make(p) ==
  LET l == Look(T, p.mat, Pic(p), p.below)
      known == p.mat \in DOMAIN T.mats IN
  IF l = NoLook THEN l
  ELSE [l EXCEPT !.a = IF Bad("raw") /\ known THEN T.mats[p.mat].op ELSE IF Bad("glass") /\ Pic(p) # "" /\ l.c = "ffffff" THEN 1000 ELSE @,
                 !.t = IF Bad("through") /\ Lit(p.below) THEN ((1000 - p.below) * 3) \div 10 ELSE @,
                 !.b = IF Bad("blend") /\ known THEN T.mats[p.mat].oa ELSE @]
(* what tells whether a look can be shared *)
Key(p) == IF Bad("bypicture") /\ Pic(p) # "" THEN <<Pic(p)>> ELSE <<Pic(p), p.mat, p.below>>
Give ==
  /\ k > 0 /\ k <= Len(ps)
  /\ LET p == ps[k]
         at == SelectSeq(shared, LAMBDA e : e.key = Key(p)) IN
     IF at # << >> THEN of' = Append(of, at[1].i) /\ UNCHANGED <<list, shared>>
     ELSE IF Bad("gone") /\ p.img = "gone" THEN of' = Append(of, 0) /\ UNCHANGED <<list, shared>>
     ELSE /\ list' = Append(list, Make(p)) /\ of' = Append(of, Len(list'))
          /\ shared' = Append(shared, [key |-> Key(p), i |-> Len(list')])
  /\ k' = k + 1 /\ UNCHANGED ps
Next == Add \/ Go \/ Give
Spec == Init /\ [][Next]_vars
(* every part looks like its own material *)
Own == \A i \in DOMAIN of :
  LET want == Look(T, ps[i].mat, IF ps[i].img = "gone" THEN "" ELSE ps[i].img, ps[i].below)
      got == IF of[i] = 0 THEN NoLook ELSE list[of[i]] IN Unlike(got, want) = ""
=============================================================================
