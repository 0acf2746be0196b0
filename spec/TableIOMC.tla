----------------------------- MODULE TableIOMC -----------------------------
(* Memory, two table files and every history of editing, writing, opening.   *)
EXTENDS TableIO, Json, FiniteSets
CONSTANTS MaxLen, MaxParts, Emit
VARIABLES mem, disk, prog, wrote
vars == <<mem, disk, prog, wrote>>
View == <<mem, disk, wrote>>
Files == {"a", "b"}
NoTable == [none |-> TRUE]
Base(b) == [version |-> b, tags |-> IF b = 1 THEN <<>> ELSE <<"r">>, info |-> IF b = 1 THEN ("TableName" :> 1) ELSE ("r" :> 7) @@ ("TableName" :> 2),
            set |-> [counts |-> [k \in Kinds |-> IF b = 1 THEN 0 ELSE 1], v |-> b],
            parts |-> [k \in Kinds |-> IF b = 1 THEN <<>> ELSE <<b>>]]
Init == mem = NoTable /\ disk = [p \in Files |-> NoTable] /\ prog = <<>> /\ wrote = [p \in Files |-> NoTable]
Do(op) == /\ Len(prog) < MaxLen /\ prog' = Append(prog, op)
          /\ IF Emit /\ Len(prog') = MaxLen THEN PrintT("VP " \o ToJson(prog')) ELSE TRUE
LoadBase == \E b \in {1, 2} : Do(<<"load", b>>) /\ mem' = Base(b) /\ UNCHANGED <<disk, wrote>>
Write == \E p \in Files : mem # NoTable /\ Do(<<"write", p>>) /\ disk' = [disk EXCEPT ![p] = Store(mem)] /\ wrote' = [wrote EXCEPT ![p] = mem] /\ mem' = mem
Open == \E p \in Files : disk[p] # NoTable /\ Do(<<"open", p>>) /\ mem' = Load(disk[p]) /\ UNCHANGED <<disk, wrote>>
Bytes == mem # NoTable /\ Do(<<"bytes">>) /\ mem' = Load(Store(mem)) /\ UNCHANGED <<disk, wrote>>
\* the owner of the table edits it, keeping the counts right
Add == \E k \in Kinds : /\ mem # NoTable /\ Len(mem.parts[k]) < MaxParts
        /\ Do(<<"add", k>>)
        /\ mem' = [mem EXCEPT !.parts[k] = Append(@, Len(@) + 10), !.set.counts[k] = @ + 1] /\ UNCHANGED <<disk, wrote>>
Drop == \E k \in Kinds : /\ mem # NoTable /\ Len(mem.parts[k]) > 0
        /\ Do(<<"drop", k>>)
        /\ mem' = [mem EXCEPT !.parts[k] = Tail(@), !.set.counts[k] = @ - 1] /\ UNCHANGED <<disk, wrote>>
Info == \E n \in {"TableName", "TableRules"} : /\ mem # NoTable
        /\ Do(<<"info", n>>)
        /\ mem' = [mem EXCEPT !.info = IF n \in DOMAIN @ THEN [m \in DOMAIN @ \ {n} |-> @[m]] ELSE (n :> 5) @@ @] /\ UNCHANGED <<disk, wrote>>
Next == LoadBase \/ Write \/ Open \/ Bytes \/ Add \/ Drop \/ Info
RoundTrip == mem # NoTable => Load(Store(mem)) = mem
Counts == mem # NoTable => Consistent(mem)
\* a file holds exactly what was written last, whatever was there before
Exactly == \A p \in Files : disk[p] # NoTable => Load(disk[p]) = wrote[p] /\ DOMAIN disk[p] = Paths(wrote[p])
=============================================================================
