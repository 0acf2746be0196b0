---------------------------- MODULE FileSysTrace ----------------------------
(* Replays histories recorded on the disk and on the memory file system      *)
(* through FileSys.tla: every result must be the one it predicts.            *)
EXTENDS FileSys, Json, IOUtils, SequencesExt
VARIABLES n, at
Cases == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))
C == Cases[n]
\* an operation as recorded: o.real, o.mem are the results; after every operation
\* the histories ask both for the state of every path: o.look = <<<<real exists, mem exists, real content, mem content>>, ...>>
Say(why) == why = {} \/ PrintT("VP " \o ToJson([id |-> C.id, at |-> at, why |-> SetToSeq(why)]))
V(name, bad) == IF bad THEN {name} ELSE {}
Init == FsInit /\ n = 1 /\ at = 1
O == C.ops[at]
Want(o) == CASE o.op = "read" -> SubSeq(rd[o.h].left, 1, Min(o.n, Len(rd[o.h].left)))
             [] OTHER -> "ok"
Do(o) == CASE o.op = "create" -> Create(o.h, o.p, o.buf)
           [] o.op = "write" -> Write(o.h, o.d)
           [] o.op = "flush" -> Flush(o.h)
           [] o.op = "close" -> Close(o.h)
           [] o.op = "put" -> WriteFile(o.p, o.d)
           [] o.op = "delete" -> Delete(o.p)
           [] o.op = "open" -> Open(o.h, o.p)
           [] o.op = "read" -> Read(o.h, o.n)
           [] o.op = "closer" -> CloseReader(o.h)
           [] o.op = "clear" -> Clear
Settled(p) == ~(\E w \in Writers : wr'[w].open /\ wr'[w].p = p /\ wr'[w].fresh)
Looks(o) == UNION {LET l == o.look[p]
                       there == p \in DOMAIN disk'
                   IN IF ~Settled(p) THEN {}
                      ELSE V("the disk is not as specified", l[1] # there \/ l[3] # (IF there THEN disk'[p] ELSE "not found"))
                           \cup V("existence differs in memory", l[2] # there)
                           \cup V("content differs in memory", there /\ l[2] /\ l[4] # disk'[p])
                           \cup V("a missing file is not reported in memory", ~there /\ ~l[2] /\ l[4] # "not found")
                           \cup V("the other way of reading gives something else", l[5] # l[4])
                   : p \in Paths}
Next == \/ /\ n <= Len(Cases) /\ at <= Len(C.ops)
           /\ Do(O)
           /\ Say(V("the disk gives another result", O.real # Want(O)) \cup V("another result in memory", O.mem # Want(O) /\ O.mem # "n/a")
                  \cup Looks(O) \cup V("listing differs", \E p \in Paths : Settled(p) /\ (p \in ToSet(O.list)) # (p \in DOMAIN disk')) \cup V("a path nobody wrote", ~(ToSet(O.list) \subseteq Paths)))
           /\ at' = at + 1 /\ n' = n
        \/ /\ n <= Len(Cases) /\ at > Len(C.ops)
           /\ n' = n + 1 /\ at' = 1
           /\ disk' = <<>> /\ mem' = <<>> /\ wr' = [w \in Writers |-> None] /\ rd' = [r \in Readers |-> None]
=============================================================================
