------------------------------- MODULE BiffIO -------------------------------
(* The generic record layer: a byte stream of records <<size, tag, payload>>, *)
(* a reader that stands somewhere inside a record and a writer that appends. *)
(* Bytes are naturals 0..255; text is a sequence of code points.             *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Byte(d, k) == d[k + 1]
Bytes(d, p, n) == SubSeq(d, p + 1, p + n)
U32(d, p) == Byte(d, p) + 256 * Byte(d, p+1) + 65536 * Byte(d, p+2) + 16777216 * (Byte(d, p+3) % 128)
LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
UpToNul(b) == IF \E k \in 1..Len(b) : b[k] = 0
              THEN SubSeq(b, 1, (CHOOSE k \in 1..Len(b) : b[k] = 0 /\ \A j \in 1..(k-1) : b[j] # 0) - 1)
              ELSE b
Pad4(t) == [k \in 1..4 |-> IF k <= Len(t) THEN t[k] ELSE 0]
ENDB == <<69, 78, 68, 66>>

\* ---- UTF-16 code units <-> code points
RECURSIVE Utf16(_)
Utf16(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE LET c == Head(cs) IN
       (IF c < 65536 THEN << c % 256, c \div 256 >>
        ELSE LET u == c - 65536  hi == 55296 + (u \div 1024)  lo == 56320 + (u % 1024) IN
             << hi % 256, hi \div 256, lo % 256, lo \div 256 >>) \o Utf16(Tail(cs))
RECURSIVE FromUtf16(_)
FromUtf16(b) ==
  IF Len(b) < 2 THEN <<>>
  ELSE LET u == b[1] + 256 * b[2] IN
       IF u >= 55296 /\ u < 56320 /\ Len(b) >= 4
       THEN <<65536 + (u - 55296) * 1024 + ((b[3] + 256 * b[4]) - 56320)>> \o FromUtf16(SubSeq(b, 5, Len(b)))
       ELSE <<u>> \o FromUtf16(SubSeq(b, 3, Len(b)))

\* ------------------------------------------------------------------ reading
Width(o) == CASE o \in {"u8"} -> 1 [] o \in {"u16", "i16"} -> 2
              [] o \in {"u32", "32", "i32", "f32"} -> 4 [] o \in {"i64", "u64", "f64"} -> 8 [] OTHER -> 0
ElemWidth(o) == CASE o \in {"u16s", "i16s"} -> 2 [] o \in {"u32s", "i32s", "f32s"} -> 4 [] OTHER -> 8
\* what an operation consumes from the current record
RECURSIVE StringsLen(_, _, _)
StringsLen(d, p, k) == IF k = 0 THEN 0 ELSE LET n == 4 + U32(d, p) IN n + StringsLen(d, p + n, k - 1)
RECURSIVE StringsVal(_, _, _)
StringsVal(d, p, k) == IF k = 0 THEN <<>> ELSE UpToNul(Bytes(d, p + 4, U32(d, p))) \o StringsVal(d, p + 4 + U32(d, p), k - 1)
Used(r, o, n) ==
  CASE Width(o) > 0 -> Width(o)
    [] o = "bool" -> 4
    [] o \in {"str", "get", "data", "skip"} -> n
    [] o \in {"string", "wstring"} -> 4 + U32(r.d, r.pos)
    [] o = "strings" -> StringsLen(r.d, r.pos, n)
    [] o \in {"skip_tag", "record_data", "record_data_tag"} -> r.rem
    [] OTHER -> n * ElemWidth(o)
Result(r, o, n) ==
  CASE o = "bool" -> <<IF Bytes(r.d, r.pos, 4) = <<0, 0, 0, 0>> THEN 0 ELSE 1>>
    [] o = "str" -> UpToNul(Bytes(r.d, r.pos, n))
    [] o = "string" -> UpToNul(Bytes(r.d, r.pos + 4, U32(r.d, r.pos)))
    [] o = "strings" -> StringsVal(r.d, r.pos, n)
    [] o = "wstring" -> FromUtf16(Bytes(r.d, r.pos + 4, U32(r.d, r.pos)))
    [] o = "skip" -> <<>>
    [] o = "skip_tag" -> <<r.rem>>
    [] o = "record_data_tag" -> Pad4(r.tag) \o Bytes(r.d, r.pos, r.rem)
    [] OTHER -> Bytes(r.d, r.pos, Used(r, o, n))
\* every typed read stays inside the record and only moves within it
Read(r, o, n) == LET u == Used(r, o, n) IN [r EXCEPT !.pos = @ + u, !.rem = @ - u]
\* moving to the next record: whatever was not read of this one is skipped
NextRec(r) ==
  LET s == r.pos + r.rem IN
  [r EXCEPT !.pos = s + 8, !.rem = U32(r.d, s) - 4, !.tag = UpToNul(Bytes(r.d, s + 4, 4))]
NextResult(r) == IF r.tag = ENDB \/ r.pos >= Len(r.d) THEN <<>> ELSE r.tag
Eof(r) == r.tag = ENDB \/ r.pos >= Len(r.d)
Reader(d) == [d |-> d, pos |-> 0, rem |-> 0, tag |-> <<>>]

\* ------------------------------------------------------------------ writing
\* writer: bytes so far, start of the open record (0 = none open)
Writer == [b |-> <<>>, at |-> 0, open |-> FALSE]
PatchSize(w, n) ==
  IF ~w.open THEN w
  ELSE [b |-> SubSeq(w.b, 1, w.at) \o LE4(n) \o SubSeq(w.b, w.at + 5, Len(w.b)), at |-> w.at, open |-> FALSE]
EndTag(w) == PatchSize(w, Len(w.b) - w.at - 4)
EndTag0(w) == PatchSize(w, 4)
NewTag(w, t) == LET e == EndTag(w) IN [b |-> e.b \o <<0, 0, 0, 0>> \o Pad4(t), at |-> Len(e.b), open |-> TRUE]
Put(w, bs) == [w EXCEPT !.b = @ \o bs]
Lossy(cs) == [k \in 1..Len(cs) |-> cs[k] % 256]
Encoded(o, v) ==
  CASE o = "bool" -> <<IF v[1] = 0 THEN 0 ELSE 1, 0, 0, 0>>
    [] o = "string" -> LE4(Len(v)) \o v
    [] o = "short" -> <<Len(v)>> \o v
    [] o = "string0" -> IF v = <<>> THEN <<1, 0, 0, 0, 0>> ELSE LE4(Len(v)) \o v
    [] o = "wstring" -> LET u == Utf16(v) IN LE4(Len(u)) \o u
    [] o = "lp" -> LE4(Len(v)) \o v
    [] o = "t_vec3p" -> v \o <<0, 0, 0, 0>>
    [] OTHER -> v
Tagged == {"t_empty", "t_bool", "t_f32", "t_u32", "t_i32", "t_string", "t_wstring", "t_data", "t_vec2", "t_vec3", "t_vec3p"}
Tagged0 == {"t_string0", "t_data0"}
Inner(o) == CASE o = "t_bool" -> "bool" [] o \in {"t_string", "t_string0"} -> "string" [] o = "t_wstring" -> "wstring" [] OTHER -> o
WriteOp(w, op) ==
  CASE op.o = "new" -> NewTag(w, op.tc)
    [] op.o = "end" -> EndTag(w)
    [] op.o = "end0" -> EndTag0(w)
    [] op.o = "close" -> EndTag(NewTag(w, ENDB))
    [] op.o \in Tagged -> EndTag(Put(NewTag(w, op.tc), Encoded(Inner(op.o), op.v)))
    [] op.o \in Tagged0 -> EndTag0(Put(NewTag(w, op.tc), Encoded(Inner(op.o), op.v)))
    [] OTHER -> Put(w, Encoded(op.o, op.v))
=============================================================================
