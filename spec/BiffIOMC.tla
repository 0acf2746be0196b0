------------------------------ MODULE BiffIOMC ------------------------------
(* Exhaustive check of the reader against a stream whose record boundaries are *)
(* known by construction, for every sequence of partial reads; every complete *)
(* behaviour is printed as a program that is replayed on the real reader.     *)
EXTENDS BiffIO, Json, FiniteSets
CONSTANTS NRec, MaxOps, Emit

Tg(k) == <<65 + k, 65 + k, 65 + k>>
Pay == { <<>>, <<7>>, <<2, 0, 0, 0, 33, 0>>, <<8, 0, 0, 0, 78, 65, 77, 69>> }
RecBytes(t, p) == LE4(4 + Len(p)) \o Pad4(t) \o p
Enc(ps) == FoldLeft(LAMBDA a, k : a \o RecBytes(Tg(k), ps[k]), <<>>, [k \in 1..Len(ps) |-> k]) \o RecBytes(ENDB, <<>>)

VARIABLES pays, rd, recno, prog, vals
vars == <<pays, rd, recno, prog, vals>>

Init == /\ pays \in [1..NRec -> Pay]
        /\ rd = Reader(Enc(pays)) /\ recno = 0 /\ prog = <<>> /\ vals = <<>>

Cur == IF recno \in 1..NRec THEN pays[recno] ELSE <<>>
\* operations that stay inside the record
Ops == {<<"u8", 0>>, <<"u16", 0>>, <<"u32", 0>>, <<"bool", 0>>, <<"string", 0>>, <<"get", 1>>, <<"data", 1>>, <<"data", 2>>,
        <<"skip", 1>>, <<"str", 2>>, <<"skip_tag", 0>>, <<"record_data", 0>>, <<"record_data_tag", 0>>}
Fits(op) == IF op[1] = "string" THEN rd.rem >= 4 /\ 4 + U32(rd.d, rd.pos) <= rd.rem ELSE Used(rd, op[1], op[2]) <= rd.rem
\* the library's tag-prefixed variant is only meaningful at the start of the payload
Allowed(op) == op[1] = "record_data_tag" => Len(Cur) = rd.rem /\ Len(rd.tag) = 4
DoRead(op) ==
  /\ recno >= 1 /\ recno <= NRec /\ Len(prog) < MaxOps
  /\ Fits(op) /\ Allowed(op)
  /\ rd' = Read(rd, op[1], op[2])
  /\ prog' = Append(prog, op) /\ vals' = Append(vals, Result(rd, op[1], op[2]))
  /\ UNCHANGED <<pays, recno>>
DoNext ==
  /\ recno <= NRec
  /\ rd' = NextRec(rd) /\ recno' = recno + 1
  /\ prog' = Append(prog, <<"next", 0>>) /\ vals' = Append(vals, NextResult(NextRec(rd)))
  /\ UNCHANGED pays
  /\ IF Emit /\ recno' = NRec + 1 THEN PrintT("VP " \o ToJson([data |-> rd.d, ops |-> prog'])) ELSE TRUE
Next == DoNext \/ \E op \in Ops : DoRead(op)

\* ---- invariants
StartOf(k) == FoldLeft(LAMBDA a, j : a + 8 + Len(pays[j]), 0, [j \in 1..(k-1) |-> j])
InRecord == recno \in 1..NRec =>
   /\ rd.tag = Tg(recno)
   /\ rd.pos + rd.rem = StartOf(recno) + 8 + Len(pays[recno])
   /\ rd.pos >= StartOf(recno) + 8
Ended == recno = NRec + 1 => Eof(rd) /\ rd.pos = Len(rd.d)
\* what is read is the record's own bytes at the reader's place, never a neighbour's
OwnBytes == recno \in 1..NRec => Bytes(rd.d, rd.pos, rd.rem) = SubSeq(Cur, Len(Cur) - rd.rem + 1, Len(Cur))
=============================================================================
