----------------------------- MODULE LooksTrace -----------------------------
(* The looks and lights of exported scenes and models, judged.              *)
EXTENDS Looks, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
Why(t) ==
  IF t.result # "ok" THEN "not exported"
  ELSE IF "objects" \in DOMAIN t THEN ModelWhy(t)
  ELSE LET why == LooksWhy(t.looks, LooksWant(t)) IN
       IF why # "" THEN why ELSE LampsWhy(t.lamps, Lamps(t, t.inv))
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Cases) /\ i' = i + 1
        /\ LET w == Why(Cases[i]) IN w # "" => PrintT("VP " \o ToJson([id |-> Cases[i].id, why |-> w]))
Spec == Init /\ [][Next]_i
=============================================================================
