---------------------------- MODULE TableIOTrace ----------------------------
(* Validates recorded histories of loading, editing, writing and opening real *)
(* tables.  Values of parts are fingerprints of their stored bytes.          *)
EXTENDS TableIO, Json, IOUtils, FiniteSets, SequencesExt
Traces == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
VARIABLES tri, l, cur
T == Traces[tri]
S == T.steps[l + 1]
None == [none |-> TRUE]
Init == tri \in 1..Len(Traces) /\ l = 0 /\ cur = [mem |-> None, disk |-> [p \in {"a", "b"} |-> None]]

\* observations: the stored form as the harness takes it apart
Fn(x) == [p \in {x[i][1] : i \in 1..Len(x)} |-> (CHOOSE i \in 1..Len(x) : x[i][1] = p)]
File(x) == LET ix == TLCEval(Fn(x)) IN [p \in DOMAIN ix |-> x[ix[p]][2]]
Distinct(x) == Cardinality({x[i][1] : i \in 1..Len(x)}) = Len(x)
\* the table a stored form stands for; settings are split into counts and the rest
TableOf(o) == [version |-> File(o.s)[<<"GameStg", "Version">>], tags |-> File(o.s)[<<"GameStg", "CustomInfoTags">>],
               set |-> [counts |-> o.counts, v |-> o.set],
               info |-> [n \in {p[2] : p \in {q \in DOMAIN File(o.s) : q[1] = "TableInfo"}} |-> File(o.s)[InfoPath(n)]],
               parts |-> [k \in Kinds |-> [i \in 1..Cardinality({q \in DOMAIN File(o.s) : Len(q) = 3 /\ q[2] = k}) |-> File(o.s)[PartPath(k, i)]]]]
Complete(o) == /\ Distinct(o.s) /\ Fixed \subseteq DOMAIN File(o.s)
               /\ \A q \in DOMAIN File(o.s) : \/ q \in Fixed \/ (q[1] = "TableInfo" /\ Len(q) = 2)
                                             \/ (Len(q) = 3 /\ q[2] \in Kinds /\ q[3] < o.counts[q[2]])
               /\ \A k \in Kinds : \A i \in 1..o.counts[k] : PartPath(k, i) \in DOMAIN File(o.s)
               /\ Consistent(TableOf(o))
\* what must be byte for byte what the independently built base file has
ExactKept(o) == LET b == T.bases[S.arg] IN
   /\ {q \in DOMAIN File(o.s) : q \notin {<<"GameStg", "GameData">>}} = {b[i][1] : i \in 1..Len(b)}
   /\ \A i \in 1..Len(b) : b[i][2] # "" => File(o.s)[b[i][1]] = b[i][2]

m == cur.mem
NewMem ==
  CASE S.op = "load" -> TableOf(S.obs)
    [] S.op = "open" -> cur.disk[S.arg]
    [] S.op = "add" -> [m EXCEPT !.parts[S.arg] = Append(@, S.want), !.set.counts[S.arg] = @ + 1]
    [] S.op = "drop" -> [m EXCEPT !.parts[S.arg] = Tail(@), !.set.counts[S.arg] = @ - 1]
    [] S.op = "info" -> [m EXCEPT !.info = IF S.arg \in DOMAIN @ THEN [x \in DOMAIN @ \ {S.arg} |-> @[x]] ELSE (S.arg :> S.want) @@ @]
    [] OTHER -> m
Why ==
  IF ~S.ok THEN {"failed"}
  ELSE IF ~Complete(S.obs) THEN {"stored parts incomplete or superfluous"}
  ELSE LET t == TLCEval(TableOf(S.obs))
           w == TLCEval(NewMem) IN
     (IF S.op = "load" /\ ~ExactKept(S.obs) THEN {"stored data of the opened file not kept"} ELSE {})
     \cup {"differs: " \o x : x \in {y \in {"version", "tags", "set", "info", "parts"} : t[y] # w[y]}}
     \cup (IF ~S.eq THEN {"reads back as a different table"} ELSE {})
Known(o) == o \in {"load", "open", "write", "bytes", "add", "drop", "info"}
Step ==
  /\ l < Len(T.steps) /\ tri' = tri /\ Known(S.op)
  /\ LET w == Why IN
     IF w # {} THEN PrintT("VP " \o ToJson([id |-> T.id, at |-> l, op |-> S.op, why |-> w])) /\ l' = Len(T.steps) /\ cur' = cur
     ELSE /\ l' = l + 1
          \* S.obs is the stored form: of the file written, else of the table in memory
          /\ cur' = [mem |-> NewMem, disk |-> IF S.op = "write" THEN [cur.disk EXCEPT ![S.arg] = TableOf(S.obs)] ELSE cur.disk]
Next == Step
=============================================================================
