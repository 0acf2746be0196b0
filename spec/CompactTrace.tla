---------------------------- MODULE CompactTrace ----------------------------
(* Recorded runs of the real compaction against Compact.tla: the log of file *)
(* operations of an undisturbed run is executed on the model's two files and *)
(* the invariants are evaluated after every one of them; the runs with an    *)
(* injected failure or crash are judged by the state they were observed in.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FileState

Cases == ndJsonDeserialize(IOEnv.VP_TRACES)
VARIABLES i, st
vars == <<i, st>>

Part(f) == [f EXCEPT !.seen = "part"]
\* the files after operation e; n is the number of operations, last(t) the last write to t
LastWrite(evs, t) == LET w == {k \in DOMAIN evs : evs[k].c = "write" /\ evs[k].t = t} IN IF w = {} THEN 0 ELSE CHOOSE m \in w : \A x \in w : x <= m
Upd(s, t, f) == IF t = "tbl" THEN [s EXCEPT !.tbl = f] ELSE IF t = "tmp" THEN [s EXCEPT !.tmp = f] ELSE s
Get(s, t) == IF t = "tbl" THEN s.tbl ELSE s.tmp
Step(s, e, k, evs) ==
  CASE e.c = "create" -> Upd(s, e.t, [seen |-> "part", safe |-> Get(s, e.t).safe])
    [] e.c = "write"  -> Upd(s, e.t, [seen |-> IF k = LastWrite(evs, e.t) THEN "copy" ELSE "part", safe |-> IF Get(s, e.t).safe = "none" THEN "none" ELSE "part"])
    [] e.c = "sync"   -> Upd(s, e.t, [Get(s, e.t) EXCEPT !.safe = Get(s, e.t).seen])
    [] e.c = "truncate" -> Upd(s, e.t, [seen |-> "part", safe |-> "part"])
    [] e.c = "unlink" -> Upd(s, e.t, None)
    [] e.c = "rename" -> Upd(Upd(s, e.to, Get(s, e.t)), e.t, None)
    [] OTHER -> s
RECURSIVE States(_, _, _)
States(s, evs, k) == IF k > Len(evs) THEN <<>> ELSE LET n == Step(s, evs[k], k, evs) IN <<n>> \o States(n, evs, k + 1)
Start == [tbl |-> Orig, tmp |-> None]

Clean(c) == LET ss == States(Start, c.evs, 1)
                end == IF ss = <<>> THEN Start ELSE Last(ss)
            IN IF c.clean # "ok" THEN <<"failed">>
               ELSE (IF \E k \in DOMAIN ss : ~Complete(ss[k].tbl.seen) THEN <<"table missing meanwhile">> ELSE <<>>)
                 \o (IF Complete(end.tbl.seen) /\ \E k \in DOMAIN ss : ~Complete(ss[k].tbl.safe) THEN <<"not durable">> ELSE <<>>)
                 \o (IF end.tmp.seen # "none" \/ c.left # <<>> THEN <<"temporary file remains">> ELSE <<>>)
                 \o (IF ~c.same THEN <<"content changed">> ELSE <<>>)
Why(r) == (IF r.tbl \notin {"orig", "new"} THEN <<"table lost">> ELSE <<>>)
          \o (IF r.res = "panic" THEN <<"aborted">> ELSE <<>>)
          \o (IF r.res = "ok" /\ r.m # "crash" /\ (r.tbl # "new" \/ r.tmp # "gone") THEN <<"false success">> ELSE <<>>)
          \o (IF r.again \notin {"none", "new"} THEN <<"next attempt " \o r.again>> ELSE <<>>)
Verdicts(c) == (IF Clean(c) = <<>> THEN <<>> ELSE <<[id |-> c.id, at |-> 0, why |-> Clean(c)]>>)
               \o (LET R == SelectSeq([k \in DOMAIN c.runs |-> [id |-> c.id, at |-> k, why |-> Why(c.runs[k])]], LAMBDA x : x.why # <<>>) IN R)

Init == i = 0 /\ st = <<>>
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ st' = Verdicts(Cases[i + 1])
        /\ \A k \in DOMAIN st' : PrintT("VP " \o ToJson(st'[k]))
=============================================================================
