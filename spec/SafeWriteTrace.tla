--------------------------- MODULE SafeWriteTrace ---------------------------
(* Judges recorded runs of the real writing operations, each with one fault *)
(* injected at one storage operation, by Reported and WholeIfOk of SafeWrite.*)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.VP_TRACES)
VARIABLES i, st
W(r) == INSTANCE SafeWrite WITH N <- 1, Chunks <- 1, Flaws <- {}, pc <- "end", cur <- 1, chunk <- 1, buf <- {},
                                disk <- IF r.tbl = "new" THEN {<<1, 1>>} ELSE {}, sig <- {}, res <- r.res,
                                faults <- IF r.c = "seek" THEN 0 ELSE 1
Clean(c) == IF c.clean # "ok" THEN <<"failed">> ELSE <<>>
Why(r) == (IF r.res = "panic" THEN <<"aborted">> ELSE <<>>)
          \o (IF r.res = "ok" /\ ~W(r)!Reported THEN <<"failure not reported">> ELSE <<>>)
          \o (IF ~W(r)!WholeIfOk THEN <<"incomplete but success">> ELSE <<>>)
Verdicts(c) == (IF Clean(c) = <<>> THEN <<>> ELSE <<[id |-> c.id, at |-> 0, why |-> Clean(c)]>>)
               \o SelectSeq([k \in DOMAIN c.runs |-> [id |-> c.id, at |-> k, why |-> Why(c.runs[k])]], LAMBDA x : x.why # <<>>)
Init == i = 0 /\ st = <<>>
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ st' = Verdicts(Cases[i + 1])
        /\ \A k \in DOMAIN st' : PrintT("VP " \o ToJson(st'[k]))
=============================================================================
