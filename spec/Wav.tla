-------------------------------- MODULE Wav --------------------------------
(* Wave files of sounds. A file is the RIFF size, whether that size is the   *)
(* size of the file, and a sequence of chunks [id, size, cut]: size bytes,   *)
(* then a pad byte if size is odd; the last chunk may be cut short. The      *)
(* reader walks the file by offsets (in bytes), as the library has to.       *)
(* Sizes of "fmt" below 16 and of 17 are not formats.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Flaws
VARIABLES chunks, honest, cut, pos, fmt, res
vars == <<chunks, honest, cut, pos, fmt, res>>

Pad(n) == n + (n % 2)
RECURSIVE Off(_, _)
\* the offset of the header of chunk k
Off(c, k) == IF k = 1 THEN 12 ELSE Off(c, k - 1) + 8 + Pad(c[k - 1].size)
\* the length of the file; cut bytes are missing at its end
End(c, x) == LET e == Off(c, Len(c) + 1) IN IF x >= e - 12 THEN 12 ELSE e - x
IsFmt(n) == n = 16 \/ n >= 18
Min(a, b) == IF a < b THEN a ELSE b
Running == [ok |-> FALSE, fmt |-> 0, at |-> 0, len |-> 1]
Error == [ok |-> FALSE, fmt |-> 0, at |-> 0, len |-> 0]
----------------------------------------------------------------------------
\* What a file means, over its chunks
Intended(c, h, x) ==
  LET ds == {k \in DOMAIN c : c[k].id = "data"}
      d  == CHOOSE k \in ds : \A j \in ds : k <= j
      fs == {k \in DOMAIN c : c[k].id = "fmt" /\ k < d}
      f  == CHOOSE k \in fs : TRUE
      e  == End(c, x)
      at == Off(c, d) + 8
  IN IF ds = {} \/ Cardinality(fs) # 1 \/ ~IsFmt(c[f].size) \/ at > e THEN Error
     ELSE [ok |-> TRUE, fmt |-> f, at |-> at,
           len |-> IF c[d].size = 0 /\ (~h \/ x > 0) THEN e - at ELSE Min(c[d].size, e - at)]
----------------------------------------------------------------------------
\* The reader: at pos there is a header when some chunk starts there
Here == {k \in DOMAIN chunks : Off(chunks, k) = pos}
Eof == End(chunks, cut)
Read ==
  /\ res = Running
  /\ IF Here = {} \/ pos + 8 > Eof THEN res' = Error /\ UNCHANGED <<pos, fmt>>
     ELSE LET k == CHOOSE k \in Here : TRUE
              s == chunks[k].size
              next == pos + 8 + (IF "no-pad" \in Flaws THEN s ELSE Pad(s))
          IN CASE chunks[k].id = "data" ->
                    /\ res' = IF fmt = 0 THEN Error
                              ELSE [ok |-> TRUE, fmt |-> fmt, at |-> pos + 8,
                                    len |-> IF "rest" \in Flaws \/ (s = 0 /\ (~honest \/ cut > 0)) THEN Eof - pos - 8
                                            ELSE IF "padded-data" \in Flaws THEN Min(Pad(s), Eof - pos - 8) ELSE Min(s, Eof - pos - 8)]
                    /\ UNCHANGED <<pos, fmt>>
               [] chunks[k].id = "fmt" ->
                    IF (fmt # 0 /\ "last-fmt" \notin Flaws) \/ ~IsFmt(s) \/ next > Eof THEN res' = Error /\ UNCHANGED <<pos, fmt>>
                    ELSE fmt' = k /\ pos' = next /\ res' = res
               [] OTHER -> IF next > Eof THEN res' = Error /\ UNCHANGED <<pos, fmt>> ELSE pos' = next /\ UNCHANGED <<fmt, res>>
  /\ UNCHANGED <<chunks, honest, cut>>
Right == res # Running => res = Intended(chunks, honest, cut)
----------------------------------------------------------------------------
\* The writer: a sound is its format tag, cbSize and number of bytes
Ext(s) == s.tag # 1 \/ s.cb # 0
Written(s) ==
  LET f == IF Ext(s) THEN 18 ELSE 16
      n == IF "size-from-cb" \in Flaws /\ s.tag # 1 THEN s.cb ELSE s.n
      pad == IF "no-pad-byte" \in Flaws THEN 0 ELSE s.n % 2
      file == 12 + 8 + f + 8 + s.n + pad
  IN [riff |-> IF "size-36" \in Flaws THEN s.n + 36 ELSE file - 8, file |-> file,
      chunks |-> <<[id |-> "fmt", size |-> f], [id |-> "data", size |-> n]>>]
\* facts about a file's bytes; have: the bytes there are after the last header
WellFormed(w) ==
  /\ w.riff = w.file - 8
  /\ Off(w.chunks, Len(w.chunks) + 1) = w.file
  /\ Cardinality({k \in DOMAIN w.chunks : w.chunks[k].id = "fmt"}) = 1
  /\ Cardinality({k \in DOMAIN w.chunks : w.chunks[k].id = "data"}) = 1
  /\ Intended(w.chunks, TRUE, 0).ok
Faithful(w, s) == LET i == Intended(w.chunks, TRUE, 0) IN i.len = s.n /\ (w.chunks[i.fmt].size >= 18 \/ ~Ext(s))
----------------------------------------------------------------------------
\* The stored record of a sound, by file version; wav: the path is that of a wave file
Record(version, wav) ==
  <<"name", "path", "internal">> \o (IF wav THEN <<"wave">> ELSE <<>>) \o <<"data", "target">>
  \o (IF version < 1031 THEN <<>> ELSE <<"volume", "balance", "fade", "volume">>)
=============================================================================
