------------------------------- MODULE EditMC -------------------------------
(* Explores Edit.tla from tables with up to two images and prints histories. *)
EXTENDS Edit, Json
CONSTANTS MaxOps, Emit, Names
VARIABLES hist, n, start
ALL == <<items, imgs, ci, cm, script, ret, hist, n, start>>
Starts == {[items |-> i, imgs |-> m] : i \in {<<>>, <<"t1">>, <<"t1", "t2">>}, m \in {<<>>, <<<<"A", "s1">>>>, <<<<"a", "s1">>, <<"B", "s2">>>>, <<<<"B", "s1">>, <<"x", "s2">>>>}}
Init == \E s \in Starts : /\ start = s /\ items = s.items /\ imgs = s.imgs /\ ci = Len(s.items) /\ cm = Len(s.imgs) /\ script = "s0" /\ ret = "ok" /\ hist = <<>> /\ n = 0
Id == "n" \o ToString(n)
Op(o) == hist' = Append(hist, o)
Step == \/ AddItem(Id) /\ Op([op |-> "item", i |-> Id])
        \/ \E x \in Names : AddImage(x, Id) /\ Op([op |-> "image", name |-> x, i |-> Id])
        \/ SetScript(Id) /\ Op([op |-> "script", i |-> Id])
        \/ \E h \in {"bytes", "file", "dir"} : Save /\ Op([op |-> "save", how |-> h])
Next == n < MaxOps /\ n' = n + 1 /\ start' = start /\ Step /\ (~Emit \/ n' < MaxOps \/ PrintT("VP " \o ToJson([start |-> start, ops |-> hist'])))
View == <<items, imgs, ci, cm, script, ret, n, IF Emit THEN hist ELSE <<>>>>
=============================================================================
