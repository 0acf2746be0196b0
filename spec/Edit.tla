-------------------------------- MODULE Edit --------------------------------
(* Editing a table in memory. items: the items in order; imgs: the images    *)
(* in order, <<name, identity>>; ci, cm: the counters of items and images in *)
(* the settings; script. Saving writes the table and reads it back: the      *)
(* reader takes as many parts as the counters say.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Flaws
VARIABLES items, imgs, ci, cm, script, ret
edvars == <<items, imgs, ci, cm, script, ret>>
Fold1(t) == CASE t = "A" -> "a" [] t = "B" -> "b" [] OTHER -> t
Same(x, y) == IF "case-sensitive" \in Flaws THEN x = y ELSE Fold1(x) = Fold1(y)
AddItem(i) == /\ items' = Append(items, i)
              /\ ci' = IF "no-count" \in Flaws THEN ci ELSE Len(items')
              /\ ret' = "ok" /\ UNCHANGED <<imgs, cm, script>>
At(s, n) == {k \in DOMAIN s : Same(s[k][1], n)}
First(s, n) == CHOOSE k \in At(s, n) : \A j \in At(s, n) : k <= j
AddImage(n, i) ==
  /\ IF At(imgs, n) = {}
     THEN imgs' = Append(imgs, <<n, i>>) /\ cm' = cm + 1 /\ ret' = "added"
     ELSE LET k == First(imgs, n) IN
          /\ ret' = imgs[k][2]
          /\ imgs' = IF "replace-moves" \in Flaws THEN Append(SubSeq(imgs, 1, k - 1) \o SubSeq(imgs, k + 1, Len(imgs)), <<n, i>>) ELSE [imgs EXCEPT ![k] = <<n, i>>]
          /\ cm' = IF "count-on-replace" \in Flaws THEN cm + 1 ELSE cm
  /\ UNCHANGED <<items, ci, script>>
SetScript(s) == script' = s /\ ret' = "ok" /\ UNCHANGED <<items, imgs, ci, cm>>
Save == IF ci <= Len(items) /\ cm <= Len(imgs)
        THEN items' = SubSeq(items, 1, ci) /\ imgs' = SubSeq(imgs, 1, cm) /\ ret' = "ok" /\ UNCHANGED <<ci, cm, script>>
        ELSE ret' = "error" /\ UNCHANGED <<items, imgs, ci, cm, script>>
----------------------------------------------------------------------------
Counters == ci = Len(items) /\ cm = Len(imgs)
Unique == \A j, k \in DOMAIN imgs : j # k => Fold1(imgs[j][1]) # Fold1(imgs[k][1])
NoError == ret # "error"
\* nothing but the replaced image changes place, and nothing is lost
Keeps == [][/\ SubSeq(items', 1, Len(items)) = items
            /\ Len(imgs') >= Len(imgs)
            /\ Cardinality({k \in DOMAIN imgs : imgs'[k] # imgs[k]}) <= 1]_edvars
=============================================================================
