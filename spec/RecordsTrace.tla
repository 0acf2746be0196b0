---------------------------- MODULE RecordsTrace ----------------------------
(* Trace validation: each trace is one load of a stored object by the real  *)
(* library followed by one store.  The trace lists the stored records the   *)
(* library was given and the records it stored again.  TLC replays the load *)
(* one record per step and accepts iff the stored result is what the spec's *)
(* object state says.                                                       *)
EXTENDS Records, Json, IOUtils

Schemas == TLCEval(JsonDeserialize(IOEnv.VP_SCHEMA))
Traces  == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
Types   == DOMAIN Schemas
Idx     == TLCEval([n \in Types |-> TLCEval(Index(Schemas[n].f))])
Ini     == TLCEval([n \in Types |-> TLCEval(Initial(Schemas[n].f))])
Tags    == TLCEval([n \in Types |-> TLCEval(TagsOf(Schemas[n].f))])
None    == TLCEval([n \in Types |-> TLCEval([c \in Tags[n] |-> <<>>])])
\* kinds whose payload is again a stored object, of kind e.c
Nested  == {"sub", "nest"}

VARIABLES tri, l, fields
vars == <<tri, l, fields>>

\* value of a record for type n: nested objects are loaded with the child schema
RECURSIVE Load(_, _), Value(_, _)
Value(n, r) ==
  IF r.t \notin DOMAIN Idx[n] THEN ""
  ELSE IF Idx[n][r.t].k \in Nested THEN Load(Idx[n][r.t].c, r.s)
  ELSE Canon(Idx[n][r.t].k, r.p)
Load(n, recs) == FoldLeft(LAMBDA f, r : ReadOne(Idx[n], f, r.t, Value(n, r)), Ini[n], recs)

\* the records stored again, as field -> values; a tag the schema does not have becomes visible
RECURSIVE Out(_, _)
OutVal(n, r) == IF Idx[n][r.t].k \in Nested THEN Out(Idx[n][r.t].c, r.s) ELSE r.p
Out(n, recs) ==
  FoldLeft(LAMBDA f, r : [f EXCEPT ![r.t] = Append(@, OutVal(n, r))], None[n], recs)
RECURSIVE OnlyKnown(_, _)
OnlyKnown(n, recs) == \A j \in 1..Len(recs) :
    /\ recs[j].t \in Tags[n]
    /\ Idx[n][recs[j].t].k \in Nested => OnlyKnown(Idx[n][recs[j].t].c, recs[j].s)

T(j) == Traces[j]
Init == /\ tri \in 1..Len(Traces)
        /\ l = 0
        /\ fields = Ini[T(tri).n]

Read == /\ l < Len(T(tri).recs)
        /\ LET r == T(tri).recs[l+1] IN fields' = ReadOne(Idx[T(tri).n], fields, r.t, Value(T(tri).n, r))
        /\ l' = l + 1
        /\ tri' = tri

\* fields that differ between the spec state and what the library stored
Diff(n, recs) == LET o == TLCEval(Out(n, recs)) IN {c \in Tags[n] : o[c] # fields[c]}
Verdict ==
  IF "err" \in DOMAIN T(tri) THEN [id |-> T(tri).id, ok |-> FALSE, why |-> T(tri).err, tags |-> <<>>]
  ELSE IF ~OnlyKnown(T(tri).n, T(tri).out) THEN [id |-> T(tri).id, ok |-> FALSE, why |-> "stored a record the kind does not define", tags |-> <<>>]
  ELSE LET d == Diff(T(tri).n, T(tri).out) IN
       [id |-> T(tri).id, ok |-> d = {}, why |-> IF d = {} THEN "" ELSE "fields differ", tags |-> SetToSeq(d)]
Store == /\ l = Len(T(tri).recs)
         /\ l' = l + 1
         /\ LET v == Verdict IN IF v.ok THEN TRUE ELSE PrintT("VP " \o ToJson(v))
         /\ UNCHANGED <<tri, fields>>
Next == Read \/ Store
=============================================================================
