----------------------------- MODULE RecordsMC -----------------------------
(* Exhaustive check of the record-reading design on a schema with one field *)
(* of every mode, and generator of the abstract reading histories that are  *)
(* instantiated with every real field of every object kind and replayed.    *)
EXTENDS Records, Json

CONSTANTS MaxLen, Emit

MCSchema == << [t |-> "A", k |-> "bool", m |-> "always", d |-> "00000000", a |-> <<"A0">>],
               [t |-> "B", k |-> "u32",  m |-> "opt",    d |-> "",         a |-> <<>>],
               [t |-> "L", k |-> "u32",  m |-> "list",   d |-> "",         a |-> <<>>],
               [t |-> "M", k |-> "mark", m |-> "mark",   d |-> "",         a |-> <<>>] >>
MCIndex == Index(MCSchema)

Values == {"00000000", "01000000", "02000000"}
Known == {[t |-> t, p |-> v, x |-> x] : t \in {"A", "A0", "B", "L"}, v \in Values, x \in {"", "ff"}}
Unknown == {[t |-> "ZZ", p |-> v, x |-> ""] : v \in {"", "02000000"}}
Records0 == Known \cup Unknown \cup {[t |-> "M", p |-> "", x |-> ""]}

VARIABLES stored, fields, hist
vars == <<stored, fields, hist>>

Init == stored = <<>> /\ fields = Initial(MCSchema) /\ hist = <<>>

\* abstract operation names, used for instantiation: field role, value class, decoration
Op(r) == CASE r.t = "ZZ" -> <<"unknown", IF r.p = "" THEN 0 ELSE 1, 0>>
           [] r.t = "M"  -> <<"mark", 0, 0>>
           [] OTHER -> <<r.t, IF r.p = "00000000" THEN 0 ELSE IF r.p = "01000000" THEN 1 ELSE 2,
                         IF r.x = "" THEN 0 ELSE 1>>

ReadRecord(r) ==
  /\ Len(stored) < MaxLen
  /\ stored' = Append(stored, r)
  /\ fields' = ReadOne(MCIndex, fields, r.t, IF r.t \in DOMAIN MCIndex THEN Canon(MCIndex[r.t].k, r.p) ELSE r.p)
  /\ hist' = Append(hist, Op(r))
  /\ IF Emit THEN PrintT("VP " \o ToJson(hist')) ELSE TRUE

Next == \E r \in Records0 : ReadRecord(r)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ invariants
\* P02/P03: last value wins, defaults, lists keep everything in order - any subset, any order
FieldsRight == \A c \in TagsOf(MCSchema) : fields[c] = Expected(MCSchema, MCIndex, stored, c)

\* P04: dropping unknown records and trailing bytes changes nothing
Fold(recs) == FoldLeft(LAMBDA f, r : ReadOne(MCIndex, f, r.t,
                IF r.t \in DOMAIN MCIndex THEN Canon(MCIndex[r.t].k, r.p) ELSE r.p), Initial(MCSchema), recs)
Clean(recs) == SelectSeq([i \in 1..Len(recs) |-> [recs[i] EXCEPT !.x = ""]], LAMBDA r : r.t # "ZZ")
UnknownIrrelevant == Fold(Clean(stored)) = fields

\* writing then reading is the identity on object state (P01..P03)
EmitRecs(f) ==
  FoldLeft(LAMBDA acc, e : acc \o [i \in 1..Len(f[e.t]) |-> [t |-> e.t, p |-> f[e.t][i], x |-> ""]],
           <<>>, MCSchema)
WriteReadIdentity == Fold(EmitRecs(fields)) = fields

\* order of records of different fields is irrelevant
Commutes ==
  \A i \in 1..(Len(stored)-1) :
     LET a == stored[i] b == stored[i+1]
         ca == IF a.t \in DOMAIN MCIndex THEN MCIndex[a.t].t ELSE "?"
         cb == IF b.t \in DOMAIN MCIndex THEN MCIndex[b.t].t ELSE "?" IN
     ca # cb => Fold([stored EXCEPT ![i] = b, ![i+1] = a]) = fields
=============================================================================
