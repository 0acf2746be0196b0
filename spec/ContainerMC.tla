---------------------------- MODULE ContainerMC ----------------------------
(* Exhaustive check of the table-file design over every history up to a bound *)
(* and generator of the histories that are replayed on real table files.     *)
EXTENDS Container, FiniteSets, Json
CONSTANTS MaxLen, Ops, Emit, MinEmit

Texts == {"s1", "s2"}
Sd(t) == [bytes |-> t, text |-> t, ok |-> TRUE]
BadSide == [bytes |-> "junk", text |-> "junk", ok |-> FALSE]

VARIABLES f, mac, side, prog, tampered, signedAt, locks, lastImp, init0
vars == <<f, mac, side, prog, tampered, signedAt, locks, lastImp, init0>>

Image0 == <<[name |-> "p", kind |-> "file", ext |-> "png", px |-> 1, rest |-> 1, conv |-> TRUE],
            [name |-> "b", kind |-> "bits", ext |-> "bmp", px |-> 3, rest |-> 1, conv |-> TRUE],
            [name |-> "j", kind |-> "file", ext |-> "jpg", px |-> 2, rest |-> 1, conv |-> FALSE]>>
F0(c) == [version |-> 1, info |-> 1, signinfo |-> 1, tags |-> 1, tagvals |-> 1, settings |-> "g0", rawset |-> "g0",
          lock |-> c, codeb |-> "s0", script |-> "s0", items |-> 1, images |-> Image0, sounds |-> 1, fonts |-> 1,
          colls |-> 1, extra |-> ""]
Counters == {<<>>, <<0, 0>>, <<0, 1>>, <<W-1, W-2>>, <<W-1, W-1>>}
Paths == {"default", "other"}

Init == /\ \E c \in Counters : f = F0(c) /\ init0 = F0(c)
        /\ mac = Signed(f) /\ side = [p \in Paths |-> NoFile] /\ prog = <<>>
        /\ tampered = FALSE /\ signedAt = f /\ locks = 0 /\ lastImp = "s0"

View == <<f, mac, side, tampered, signedAt, locks, lastImp, init0>>
Raw(g) == [g EXCEPT !.rawset = g.settings]      \* library-written settings have one stored form
Do(op, arg, g) ==
  /\ op[1] \in Ops /\ Len(prog) < MaxLen
  /\ prog' = Append(prog, op)
  /\ f' = Raw(g)
  /\ IF Signs(op[1], f) THEN mac' = Signed(f') /\ signedAt' = f' ELSE UNCHANGED <<mac, signedAt>>
  /\ init0' = init0
  /\ IF Emit /\ Len(prog') >= MinEmit THEN PrintT("VP " \o ToJson([lock |-> init0.lock, ops |-> prog'])) ELSE TRUE

Lock == Do(<<"lock">>, 0, AfterLock(f)) /\ locks' = locks + (IF IsLocked(f) THEN 0 ELSE 1) /\ UNCHANGED <<side, tampered, lastImp>>
Unlock == Do(<<"unlock">>, 0, AfterUnlock(f)) /\ locks' = locks + (IF IsLocked(f) THEN 1 ELSE 0) /\ UNCHANGED <<side, tampered, lastImp>>
Same == {<<"is_locked">>, <<"read">>, <<"verify">>, <<"compact">>, <<"reopen">>}
Pure == \E op \in Same : Do(op, 0, f) /\ UNCHANGED <<side, tampered, locks, lastImp>>
Settings == \E v \in {"g1", "g2"} : v # f.settings /\ Do(<<"setgd", v>>, v, AfterSettings(f, v)) /\ UNCHANGED <<side, tampered, locks, lastImp>>
Import == \E p \in Paths :
  IF side[p].ok THEN Do(<<"import", p>>, p, AfterImport(f, side[p])) /\ lastImp' = side[p].text /\ UNCHANGED <<side, tampered, locks>>
  ELSE Do(<<"import_bad", p>>, p, f) /\ UNCHANGED <<side, tampered, locks, lastImp>>
Extract == \E p \in Paths, over \in BOOLEAN :
  /\ Do(<<"extract", p, over>>, p, f)
  /\ side' = IF Exists(side[p]) /\ ~over THEN side ELSE [side EXCEPT ![p] = Extracted(f)]
  /\ UNCHANGED <<tampered, locks, lastImp>>
Edit == \E p \in Paths, t \in {Sd("s1"), Sd("s2"), BadSide, NoFile} :
  /\ side[p] # t /\ Do(<<"edit", p, t.bytes>>, t, f) /\ side' = [side EXCEPT ![p] = t] /\ UNCHANGED <<tampered, locks, lastImp>>
Webp == Do(<<"webp">>, 0, AfterWebp(f))
        /\ UNCHANGED <<side, tampered, locks, lastImp>>
Rewrite == Do(<<"rewrite">>, 0, AfterRewrite(f)) /\ UNCHANGED <<side, tampered, locks, lastImp>>
\* somebody else changes a part without signing again
SignedParts == {"version", "info", "tags", "tagvals", "settings", "codeb", "colls"}
TamperSigned == \E p \in SignedParts :
  LET g == CASE p = "version" -> [f EXCEPT !.version = @ + 1]
             [] p = "info" -> [f EXCEPT !.signinfo = 3 - @, !.info = @ + 1]
             [] p = "tags" -> [f EXCEPT !.tags = @ + 1]
             [] p = "tagvals" -> [f EXCEPT !.tagvals = 3 - @]
             [] p = "settings" -> [f EXCEPT !.settings = "gt"]
             [] p = "codeb" -> [f EXCEPT !.codeb = "st", !.script = "st"]
             [] OTHER -> [f EXCEPT !.colls = 3 - @] IN
  g # f /\ Do(<<"tamper", p>>, p, g) /\ tampered' = TRUE /\ UNCHANGED <<side, locks, lastImp>>
TamperUnsigned == \E p \in {"items", "images", "sounds", "fonts", "savedate"} :
  LET g == CASE p = "items" -> [f EXCEPT !.items = @ + 1]
             [] p = "images" -> [f EXCEPT !.images[3].px = @ + 1]
             [] p = "sounds" -> [f EXCEPT !.sounds = @ + 1]
             [] p = "fonts" -> [f EXCEPT !.fonts = @ + 1]
             [] OTHER -> [f EXCEPT !.info = @ + 1] IN
  Do(<<"tamper", p>>, p, g) /\ UNCHANGED <<side, tampered, locks, lastImp>>
Restore ==
  /\ f # signedAt
  /\ Do(<<"restore">>, 0, [signedAt EXCEPT !.items = f.items, !.images = f.images, !.sounds = f.sounds, !.fonts = f.fonts])
  /\ UNCHANGED <<side, tampered, locks, lastImp>>

Next == Lock \/ Unlock \/ Pure \/ Settings \/ Import \/ Extract \/ Edit \/ Webp \/ Rewrite \/ TamperSigned \/ TamperUnsigned \/ Restore

\* ------------------------------------------------------------------ properties
VerifyOk == mac = Signed(f)
\* P05: as long as only the library wrote, the signature matches
AlwaysSigned == ~tampered => VerifyOk
\* P06: the check fails exactly when signed content differs from what was signed
SignedView(g) == <<g.version, g.signinfo, g.tags, g.tagvals, g.settings, g.lock, g.script, g.colls>>
TamperSeen == VerifyOk <=> SignedView(f) = SignedView(signedAt)
\* P08: the counter counts effective changes, parity is the lock
Value(c) == IF c = <<>> THEN 0 ELSE c[1] * W + c[2]
CounterExact == Value(f.lock) = (Value(init0.lock) + locks) % (W * W)
LockParity == IsLocked(f) <=> (Value(init0.lock) + locks) % 2 = 1
\* P10: what was extracted or edited last is what an import reads (by construction of side); the
\* table script is always text somebody put there
ScriptKnown == f.script \in Texts \cup {"s0", "st"}
\* P07: frame conditions of every step
Frame == [][
  LET op == prog'[Len(prog')][1] IN
   /\ Untouched(op, f) \/ op \in {"compact", "reopen", "import_bad"} => f' = f
   /\ op \in {"lock", "unlock"} => f' = [f EXCEPT !.lock = f'.lock, !.rawset = f'.rawset]
   /\ op = "import" => f' = [f EXCEPT !.codeb = f'.codeb, !.script = f'.script]
   /\ op = "setgd" => f' = [f EXCEPT !.settings = f'.settings, !.rawset = f'.rawset]
   /\ op = "webp" => f' = [f EXCEPT !.images = f'.images] /\ Len(f'.images) = Len(f.images)
                     /\ \A k \in 1..Len(f.images) : f'.images[k].px = f.images[k].px /\ (~f.images[k].conv => f'.images[k] = f.images[k])
  ]_vars
=============================================================================
