------------------------------ MODULE ObjTrace ------------------------------
(* OBJ models the library exported, judged.                                 *)
EXTENDS ObjDoc, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
Why(t) ==
  IF t.result # "ok" THEN "not exported"
  ELSE IF t.file # "" THEN t.file
  ELSE LET why == WhyObj(t, ~t.dedup) IN
    IF why # "" THEN why ELSE WhyParts(t, t.its, t.table, t.tex, t.plunger, t.old, t.pfpic, t.pfmat, t.kd, ~t.dedup /\ ~t.tex)
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Cases) /\ i' = i + 1
        /\ LET w == Why(Cases[i]) IN w # "" => PrintT("VP " \o ToJson([id |-> Cases[i].id, why |-> w]))
Spec == Init /\ [][Next]_i
=============================================================================
