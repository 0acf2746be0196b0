--------------------------- MODULE PartGroupTrace ---------------------------
(* Compares the reports of the real validation with Reports of PartGroup.    *)
(* A report is recorded as <<names of items it mentions, groups it mentions>> *)
EXTENDS PartGroup, IOUtils
VARIABLE n
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
\* the reported items: the k-th report must mention the k-th item that must be reported, and its group
Wanted(l) == SetToSortSeq(Reports(l), LAMBDA a, b : a[1] < b[1])
Why(c) == LET w == Wanted(c.list) IN
  (IF Len(c.got) < Len(w) THEN {"an item out of order is not reported"} ELSE {})
  \cup (IF Len(c.got) > Len(w) THEN {"an item in order is reported, or one twice"} ELSE {})
  \cup (IF Len(c.got) = Len(w) /\ \E k \in DOMAIN w : c.list[w[k][1]][2] \notin ToSet(c.got[k][1]) \/ w[k][2] \notin ToSet(c.got[k][2]) THEN {"a report names the wrong item or group"} ELSE {})
TInit == n = 0 /\ list = <<>> /\ i = 1 /\ seen = {} /\ out = <<>>
TNext == n < Len(Cases) /\ n' = n + 1 /\ UNCHANGED vars /\ LET y == Why(Cases[n + 1]) IN y = {} \/ PrintT("VP " \o ToJson([id |-> Cases[n + 1].id, why |-> SetToSeq(y)]))
=============================================================================
