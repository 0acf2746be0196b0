------------------------------ MODULE WavTrace ------------------------------
(* Judges what the library read from wave files and wrote to them.           *)
EXTENDS Wav, Json, IOUtils, SequencesExt
VARIABLE n
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
V(name, bad) == IF bad THEN {name} ELSE {}
WhyRead(c) ==
  LET i == Intended(c.chunks, c.honest, c.cut) g == c.got IN
  IF ~i.ok THEN V("a file without format and data is accepted", g.ok)
  ELSE IF ~g.ok THEN {"a wave file is refused"}
  ELSE V("the format is not that of the file", i.fmt \notin ToSet(g.fmts))
       \cup V("the data is not that of the data chunk", g.len # i.len \/ (i.len > 0 /\ i.at \notin ToSet(g.ats)))
WhyWrite(c) ==
  V("the exported file is not a well-formed wave file", c.junk \/ ~WellFormed(c.w))
  \cup (IF c.junk \/ ~Intended(c.w.chunks, TRUE, 0).ok THEN {} ELSE V("the exported file does not hold the data of the sound", ~c.sameData \/ ~Faithful(c.w, c.s)))
  \cup V("the exported file does not have the format of the sound", ~c.sameFormat)
  \cup V("the sound is not the same after export and import", c.again # <<>>)
WhyStore(c) == V("the record of the sound is not the one stored", c.diff # <<>>) \cup V("a field of the sound is not the one stored", c.fields # <<>>)
Why(c) == CASE c.mode = "read" -> WhyRead(c) [] c.mode = "write" -> WhyWrite(c) [] OTHER -> WhyStore(c)
Init == n = 0 /\ chunks = <<>> /\ honest = TRUE /\ cut = 0 /\ pos = 0 /\ fmt = 0 /\ res = Error
Next == n < Len(Cases) /\ n' = n + 1 /\ UNCHANGED vars
        /\ LET y == Why(Cases[n + 1]) IN y = {} \/ PrintT("VP " \o ToJson([id |-> Cases[n + 1].id, why |-> SetToSeq(y)]))
=============================================================================
