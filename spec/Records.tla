------------------------------ MODULE Records ------------------------------
(* The meaning of stored tagged records.                                    *)
(*                                                                          *)
(* An object (a table item, a drag point, the table settings) is stored as  *)
(* a sequence of records.  A *schema* says which records the object kind    *)
(* defines: entries [t, k, m, d, a] with                                     *)
(*   t  canonical tag             k  value kind (bool, f32, str, ...)        *)
(*   m  mode: "always" (always stored again, with default d when absent),   *)
(*            "opt"    (stored again exactly when it was read),             *)
(*            "list"/"zip" (every occurrence is kept, in order),            *)
(*            "mark"   (a tag without data that is always stored)           *)
(*   a  older tags that mean the same field                                 *)
(* A stored record is [t, p, x]: tag, payload the field defines, and extra  *)
(* trailing bytes (a newer or corrupted writer).  Object state is a function *)
(* from canonical tag to the sequence of values held by that field.         *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

\* ---------------------------------------------------------------- schema
TagsOf(S) == {S[i].t : i \in 1..Len(S)}
AliasesOf(S) == UNION {{S[i].a[j] : j \in 1..Len(S[i].a)} : i \in 1..Len(S)}
\* canonical tag and entry for every tag the schema knows, as one function (precomputable)
Index(S) ==
  [t \in TagsOf(S) \cup AliasesOf(S) |->
     CHOOSE e \in {S[i] : i \in 1..Len(S)} :
        IF t \in TagsOf(S) THEN e.t = t ELSE \E j \in 1..Len(e.a) : e.a[j] = t]

Initial(S) ==
  [t \in TagsOf(S) |->
     LET e == CHOOSE e \in {S[i] : i \in 1..Len(S)} : e.t = t IN
     CASE e.m = "always" -> <<e.d>>
       [] e.m = "mark"   -> <<"">>
       [] OTHER          -> <<>>]

\* what a payload of a kind is stored as again: a boolean is any nonzero value
Canon(k, p) == IF k = "bool" /\ p # "00000000" THEN "01000000" ELSE p

\* ------------------------------------------------------------ transitions
\* Reading one stored record.  Unknown tags leave the object untouched; the trailing
\* bytes x of an over-long record are never looked at.
ReadOne(I, f, t, v) ==
  IF t \notin DOMAIN I THEN f
  ELSE LET e == I[t] IN
       CASE e.m \in {"list", "zip"} -> [f EXCEPT ![e.t] = Append(@, v)]
         [] e.m = "mark"            -> f
         [] OTHER                   -> [f EXCEPT ![e.t] = <<v>>]

\* -------------------------------------------------- properties of the design
\* the value a field must end with, stated without the reading machine
Occurrences(I, recs, c) ==
  SelectSeq(recs, LAMBDA r : r.t \in DOMAIN I /\ I[r.t].t = c)
Expected(S, I, recs, c) ==
  LET o == Occurrences(I, recs, c) IN
  CASE I[c].m \in {"list", "zip"} -> [i \in 1..Len(o) |-> Canon(I[c].k, o[i].p)]
    [] I[c].m = "mark" -> <<"">>
    [] OTHER -> IF o = <<>> THEN Initial(S)[c] ELSE <<Canon(I[c].k, o[Len(o)].p)>>
=============================================================================
