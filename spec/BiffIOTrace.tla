----------------------------- MODULE BiffIOTrace -----------------------------
(* Trace validation of programs run on the real reader and writer.           *)
EXTENDS BiffIO, Json, IOUtils, FiniteSets
Traces == TLCEval(ndJsonDeserialize(IOEnv.VP_TRACES))

VARIABLES tri, l, stk, wr
vars == <<tri, l, stk, wr>>
T == Traces[tri]
WOps == T.w
NW == Len(WOps)

Init == /\ tri \in 1..Len(Traces) /\ l = 0 /\ wr = Writer
        /\ stk = << Reader(Traces[tri].data) >>
Bad(why) == PrintT("VP " \o ToJson([id |-> T.id, at |-> l, why |-> why]))

\* 1. replay the write program; the bytes the library produced must be the specification's
WriteStep == /\ l < NW /\ wr' = WriteOp(wr, WOps[l+1]) /\ l' = l + 1 /\ UNCHANGED <<tri, stk>>
WriteCheck == /\ l = NW
              /\ IF "err" \in DOMAIN T THEN Bad(T.err)
                 ELSE IF NW > 0 /\ EndTag(wr).b # T.data THEN Bad("written bytes differ") ELSE TRUE
              /\ l' = IF "err" \in DOMAIN T THEN NW + Len(T.steps) + 2 ELSE l + 1
              /\ UNCHANGED <<tri, stk, wr>>
\* 2. replay the read program step by step
S == T.steps[l - NW]
Top == stk[Len(stk)]
Same(r) == r.pos = S.pos /\ r.rem = S.rem /\ r.tag = S.tag /\ Eof(r) = S.eof
ReadStep ==
  /\ l > NW /\ l - NW <= Len(T.steps)
  /\ l' = l + 1 /\ UNCHANGED <<tri, wr>>
  /\ IF S.o = "enter"
     THEN stk' = Append(stk, Reader(SubSeq(Top.d, Top.pos + 1, Len(Top.d))))
     ELSE LET st0 == IF S.o = "child" THEN SubSeq(stk, 1, Len(stk) - 1) ELSE stk
              top == st0[Len(st0)]
              r == CASE S.o = "next" -> NextRec(top)
                     [] S.o = "child" -> [top EXCEPT !.pos = @ + Top.pos, !.rem = 0]
                     [] OTHER -> Read(top, S.o, S.n)
              v == CASE S.o = "next" -> NextResult(r)
                     [] S.o = "child" -> <<Top.pos>>
                     [] OTHER -> Result(top, S.o, S.n)
          IN /\ stk' = Append(SubSeq(st0, 1, Len(st0) - 1), r)
             /\ IF v # S.res THEN Bad("value of " \o S.o)
                ELSE IF ~Same(r) THEN Bad("position after " \o S.o)
                ELSE IF "exp" \in DOMAIN S /\ S.exp # S.res THEN Bad("read back a different value: " \o S.o)
                ELSE TRUE
Next == WriteStep \/ WriteCheck \/ ReadStep
=============================================================================
