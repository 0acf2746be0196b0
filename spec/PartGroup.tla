------------------------------ MODULE PartGroup ------------------------------
(* Checking the order of part groups: one pass over the items, remembering   *)
(* the groups seen. An item is <<kind, name, group>>; kind "group" defines   *)
(* the group of its name; group "" is no group.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Kinds, Names, MaxLen, Flaws, Emit
VARIABLES list, i, seen, out
vars == <<list, i, seen, out>>
Items == {<<"group", g, "">> : g \in Names} \cup {<<k, x, g>> : k \in Kinds, x \in Names, g \in Names \cup {""}}
\* what must be reported: the items whose group is not defined earlier
Reports(l) == {<<k, l[k][3]>> : k \in {j \in DOMAIN l : l[j][1] # "group" /\ l[j][3] # "" /\ ~\E d \in 1..(j - 1) : l[d][1] = "group" /\ l[d][2] = l[j][3]}}
InOrder(s) == \A a, b \in DOMAIN s : a < b => s[a][1] < s[b][1]
Init == list \in UNION {[1..n -> Items] : n \in 0..MaxLen} /\ i = 1 /\ seen = (IF "all-first" \in Flaws THEN {list[k][2] : k \in {j \in DOMAIN list : list[j][1] = "group"}} ELSE {}) /\ out = <<>>
Step == LET x == list[i] IN
  /\ i <= Len(list)
  /\ seen' = IF x[1] = "group" \/ "any-name" \in Flaws THEN seen \cup {x[2]} ELSE IF "report-once" \in Flaws /\ x[3] # "" THEN seen \cup {x[3]} ELSE seen
  /\ out' = IF x[1] # "group" /\ x[3] # "" /\ x[3] \notin seen THEN Append(out, <<i, x[3]>>) ELSE out
  /\ i' = i + 1 /\ list' = list
Next == Step /\ (~Emit \/ i' <= Len(list) \/ PrintT("VP " \o ToJson([list |-> list, out |-> out'])))
Exact == i > Len(list) => Range(out) = Reports(list) /\ Cardinality(Reports(list)) = Len(out) /\ InOrder(out)
=============================================================================
