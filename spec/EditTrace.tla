------------------------------ MODULE EditTrace ------------------------------
(* Replays recorded editing histories of real tables through Edit.tla.       *)
EXTENDS Edit, Json, IOUtils, SequencesExt
VARIABLES n, at
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
C == Cases[n]
O == C.ops[at]
Say(why) == why = {} \/ PrintT("VP " \o ToJson([id |-> C.id, at |-> at, why |-> SetToSeq(why)]))
V(name, bad) == IF bad THEN {name} ELSE {}
Start(c) == items = c.start.items /\ imgs = c.start.imgs /\ ci = Len(c.start.items) /\ cm = Len(c.start.imgs) /\ script = "s0" /\ ret = "ok"
Load(c) == items' = c.start.items /\ imgs' = c.start.imgs /\ ci' = Len(c.start.items) /\ cm' = Len(c.start.imgs) /\ script' = "s0" /\ ret' = "ok"
Init == n = 1 /\ at = 1 /\ Start(Cases[1])
Do(o) == CASE o.op = "item" -> AddItem(o.i)
           [] o.op = "image" -> AddImage(o.name, o.i)
           [] o.op = "script" -> SetScript(o.i)
           [] o.op = "save" -> Save
Why(o) == V("the items are not the ones added", o.items # items') \cup V("the images are not the ones added", o.imgs # imgs')
          \cup V("the counter of items is wrong", o.counts[1] # Len(items')) \cup V("the counter of images is wrong", o.counts[2] # Len(imgs'))
          \cup V("another counter is wrong", o.others # <<>>) \cup V("the script is not the one set", o.script # script')
          \cup V("the result is wrong", o.ret # ret') \cup V("saving changes the table", o.diff # <<>>)
Next == \/ n <= Len(Cases) /\ at <= Len(C.ops) /\ Do(O) /\ Say(Why(O)) /\ at' = at + 1 /\ n' = n
        \/ n <= Len(Cases) /\ at > Len(C.ops) /\ n' = n + 1 /\ at' = 1 /\ (IF n < Len(Cases) THEN Load(Cases[n + 1]) ELSE UNCHANGED edvars)
=============================================================================
