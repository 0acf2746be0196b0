--------------------------- MODULE ContainerTrace ---------------------------
(* Validates recorded histories of operations on real table files against    *)
(* Container.tla.  Every step's observation (content of the file taken apart  *)
(* without the library, verdict of the library's check, results, files in the *)
(* directory) must be what the specification computes from the state before.  *)
EXTENDS Container, Json, IOUtils, FiniteSets
Traces == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))

\* cur: [f content, mac signed content, side files, tree, dirty somebody else wrote since the last signature,
\*       clean everything is in the library's own form]
VARIABLES tri, l, cur
T == Traces[tri]
S == T.steps[l + 1]

Init == /\ tri \in 1..Len(Traces) /\ l = 0
        /\ cur = [f |-> Traces[tri].first.f, mac |-> Signed(Traces[tri].first.f), side |-> Traces[tri].side0,
                  tree |-> Traces[tri].first.tree, dirty |-> FALSE, clean |-> Traces[tri].canon]

Obs == IF S.changed THEN S.obs ELSE [f |-> cur.f, tree |-> cur.tree, macok |-> cur.mac = Signed(cur.f)]
Path == IF S.arg = "" THEN T.side_default ELSE S.arg
SideAt(p) == IF p \in DOMAIN cur.side THEN cur.side[p] ELSE NoFile
Env == S.op \in {"tamper", "restore", "edit"}
BadImport == S.op = "import" /\ ~SideAt(Path).ok

\* what the file must contain after the step
After(f) ==
  CASE S.op = "lock" -> AfterLock(f)
    [] S.op = "unlock" -> AfterUnlock(f)
    [] S.op = "setgd" -> AfterSettings(f, S.want)
    [] S.op = "import" -> IF BadImport THEN f ELSE AfterImport(f, SideAt(Path))
    [] S.op = "webp" -> AfterWebp(f)
    [] S.op = "rewrite" -> AfterRewrite(f)
    [] OTHER -> f
RewritesSettings == \/ S.op \in {"setgd", "rewrite"}
                    \/ S.op = "import" /\ ~BadImport
                    \/ S.op \in {"lock", "unlock"} /\ ~Untouched(S.op, cur.f)
WroteSignature == Signs(S.op, cur.f) /\ ~BadImport

ImgSame(a, b) == IF cur.clean THEN a = b ELSE [a EXCEPT !.rest = ""] = [b EXCEPT !.rest = ""]
PartSame(p, want, got) ==
  IF p = "images" THEN Len(want) = Len(got) /\ \A k \in 1..Len(want) :
        IF S.op = "webp" /\ cur.f.images[k].conv THEN ImgSame(want[k], got[k]) ELSE want[k] = got[k]
  ELSE want = got
\* the parts that may differ from the computed content: the stored form of the settings when they are
\* stored again; what only another program understands when everything is stored again
Ignored == (IF RewritesSettings THEN {"rawset"} ELSE {})
           \cup (IF S.op = "rewrite" /\ ~cur.clean THEN Parts \cup {"signinfo"} ELSE {})
           \cup (IF S.op = "minimal" THEN Parts \cup {"signinfo"} ELSE {})
Frame == IF Env \/ ~S.ok THEN {} ELSE
  {p \in (Parts \cup {"signinfo"}) \ Ignored : ~PartSame(p, After(cur.f)[p], Obs.f[p])}

MustSucceed == ~Env /\ ~BadImport
MacAfter == IF WroteSignature /\ S.ok THEN Signed(Obs.f) ELSE cur.mac
DirtyAfter == IF S.op = "tamper" THEN TRUE ELSE IF WroteSignature THEN FALSE ELSE cur.dirty
ExtractOp == S.op = "extract" /\ S.ok
WillExtract == ~Exists(SideAt(Path)) \/ S.over
WantSide == IF ExtractOp /\ WillExtract THEN (Path :> Extracted(cur.f)) @@ cur.side ELSE cur.side

Clauses ==
  (IF MustSucceed /\ ~S.ok THEN {"failed"} ELSE {})
  \cup (IF BadImport /\ S.ok THEN {"import of a missing or unreadable script succeeded"} ELSE {})
  \cup {"part " \o p : p \in Frame}
  \cup (IF Untouched(S.op, cur.f) \/ BadImport THEN (IF S.changed THEN {"touched"} ELSE {}) ELSE {})
  \cup (IF S.op = "compact" /\ S.ok /\ Obs.tree # cur.tree THEN {"tree"} ELSE {})
  \cup (IF S.op = "webp" /\ S.ok /\ S.res # WebpReport(cur.f) THEN {"report"} ELSE {})
  \cup (IF S.op \in {"lock", "unlock"} /\ S.ok /\ S.res # (IF Untouched(S.op, cur.f) THEN "false" ELSE "true") THEN {"result"} ELSE {})
  \cup (IF S.op = "is_locked" /\ S.ok /\ S.res # (IF IsLocked(cur.f) THEN "true" ELSE "false") THEN {"result"} ELSE {})
  \cup (IF S.op = "import" /\ S.ok /\ (S.res # "ok" \/ S.rp # Path) THEN {"path"} ELSE {})
  \cup (IF S.op = "extract" /\ S.ok /\ (S.rp # Path \/ S.res # (IF WillExtract THEN "extracted" ELSE "existed")) THEN {"path"} ELSE {})
  \cup (IF S.op = "paths" /\ S.res # <<T.side_default, T.ini_default>> THEN {"path"} ELSE {})
  \cup (IF S.op = "query" /\ S.ok /\ S.res # "same" THEN {"query"} ELSE {})
  \cup (IF S.op # "edit" /\ S.side # WantSide THEN {"files"} ELSE {})
  \cup (IF S.op = "verify" /\ (S.rp # T.file \/ S.res # (IF cur.mac = Signed(cur.f) THEN "ok" ELSE "failed")) THEN {"verdict"} ELSE {})
  \cup (IF S.verify # (Signed(Obs.f) = MacAfter) \/ Obs.macok # (Signed(Obs.f) = MacAfter)
        THEN {IF DirtyAfter THEN "verdict" ELSE "signature"} ELSE {})

Broken == S.changed /\ "broken" \in DOMAIN S.obs
Say(cl) == PrintT("VP " \o ToJson([id |-> T.id, at |-> l, op |-> S.op, why |-> cl]))
Step ==
  /\ l < Len(T.steps) /\ l' = l + 1 /\ tri' = tri
  /\ IF Broken THEN Say({"broken"}) /\ cur' = cur
     ELSE /\ IF Clauses # {} THEN Say(Clauses) ELSE TRUE
          /\ cur' = [f |-> Obs.f, side |-> S.side, tree |-> Obs.tree, dirty |-> DirtyAfter,
                     \* when the file's signature is already wrong by the specification, go on from what is there
                     mac |-> IF Obs.macok THEN Signed(Obs.f) ELSE MacAfter,
                     clean |-> CASE S.op \in {"tamper", "minimal", "restore"} -> FALSE
                                 [] S.op = "rewrite" -> TRUE
                                 [] OTHER -> cur.clean]
Next == Step
=============================================================================
