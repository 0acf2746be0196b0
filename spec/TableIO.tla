------------------------------ MODULE TableIO ------------------------------
(* A table in memory, its stored form, and writing / opening table files.    *)
(* A table is a record of version, tag names, info values (a function from    *)
(* field name to value; absent fields are not in its domain), settings, and   *)
(* one sequence per kind of part.  The stored form is a function from stream  *)
(* path to value.                                                            *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Kinds

PartPath(k, i) == <<"GameStg", k, i - 1>>
InfoPath(n) == <<"TableInfo", n>>
Fixed == {<<"GameStg", "Version">>, <<"GameStg", "CustomInfoTags">>, <<"GameStg", "GameData">>}
Paths(t) == Fixed \cup {InfoPath(n) : n \in DOMAIN t.info}
            \cup UNION {{PartPath(k, i) : i \in 1..Len(t.parts[k])} : k \in Kinds}
\* every part is stored, nothing else is
Store(t) == [p \in Paths(t) |->
  CASE p = <<"GameStg", "Version">> -> t.version
    [] p = <<"GameStg", "CustomInfoTags">> -> t.tags
    [] p = <<"GameStg", "GameData">> -> [t.set EXCEPT !.counts = [k \in Kinds |-> Len(t.parts[k])]]
    [] p[1] = "TableInfo" -> t.info[p[2]]
    [] OTHER -> t.parts[p[2]][p[3] + 1]]
\* opening a file follows the counts in the settings
Load(f) ==
  LET g == f[<<"GameStg", "GameData">>] IN
  [version |-> f[<<"GameStg", "Version">>], tags |-> f[<<"GameStg", "CustomInfoTags">>], set |-> g,
   info |-> [n \in {p[2] : p \in {q \in DOMAIN f : q[1] = "TableInfo"}} |-> f[InfoPath(n)]],
   parts |-> [k \in Kinds |-> [i \in 1..g.counts[k] |-> f[PartPath(k, i)]]]]
Consistent(t) == \A k \in Kinds : t.set.counts[k] = Len(t.parts[k])
=============================================================================
