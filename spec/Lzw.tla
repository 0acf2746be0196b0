-------------------------------- MODULE Lzw --------------------------------
(* Compressed bitmap data: a stream of codes of growing width, packed into   *)
(* bytes lowest bit first, framed in blocks (a length byte, then that many   *)
(* bytes), stored in a record without a size and followed by the next record *)
(* (Marker and anything else). Codes: the literals, Clear, Eoi, then entries *)
(* in the order of their creation. An entry is a piece of the data,          *)
(* <<start, length>>. The decoder is a machine that checks each piece it     *)
(* outputs against the data.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS LitBits, MaxWidth, ByteBits, MaxBlock, Marker, Flaws
VARIABLES data, in, ip, left, acc, nb, tab, w, prev, at, st
vars == <<data, in, ip, left, acc, nb, tab, w, prev, at, st>>
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
P2 == TLCEval([n \in 0..24 |-> Pow(n)])
Clear == P2[LitBits]
Eoi == Clear + 1
FirstCode == Clear + 2
None == <<0, 0>>
Grow(next, width) == IF next = P2[width] - (IF "early-width" \in Flaws THEN 1 ELSE 0) /\ width < MaxWidth THEN width + 1 ELSE width
----------------------------------------------------------------------------
\* The encoder: a sequence of <<code, width>>
Longest(d, p, t) ==
  LET fits == {k \in DOMAIN t : p + t[k][2] <= Len(d) /\ \A i \in 1..t[k][2] : d[p + i] = d[t[k][1] + i]}
  IN IF fits = {} THEN 0 ELSE CHOOSE k \in fits : \A j \in fits : t[j][2] <= t[k][2]
EncGrow(next, width) == IF next = P2[width] /\ width < MaxWidth THEN width + 1 ELSE width
RECURSIVE Enc(_, _, _, _)
Enc(d, p, t, width) ==
  IF p = Len(d) THEN <<<<Eoi, width>>>>
  ELSE LET k == Longest(d, p, t)
           n == IF k = 0 THEN 1 ELSE t[k][2]
           c == IF k = 0 THEN d[p + 1] ELSE FirstCode + k - 1
           next == FirstCode + Len(t)
       IN <<<<c, width>>>> \o
          IF next < P2[MaxWidth] THEN Enc(d, p + n, Append(t, <<p, n + 1>>), EncGrow(next, width))
          ELSE IF "no-clear" \in Flaws THEN Enc(d, p + n, <<>>, LitBits + 1)
          ELSE <<<<Clear, width>>>> \o Enc(d, p + n, <<>>, LitBits + 1)
Codes(d) == <<<<Clear, LitBits + 1>>>> \o Enc(d, 0, <<>>, LitBits + 1)
RECURSIVE Bits(_)
Bits(cs) == IF cs = <<>> THEN <<>> ELSE [i \in 1..Head(cs)[2] |-> (Head(cs)[1] \div P2[i - 1]) % 2] \o Bits(Tail(cs))
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE Head(b) + 2 * Sum(Tail(b))
MinOf(a, b) == IF a < b THEN a ELSE b
Bytes(b) == [k \in 1..((Len(b) + ByteBits - 1) \div ByteBits) |-> Sum(SubSeq(b, (k - 1) * ByteBits + 1, MinOf(k * ByteBits, Len(b))))]
RECURSIVE Blocks(_)
Blocks(b) == IF b = <<>> THEN <<>> ELSE LET n == MinOf(MaxBlock, Len(b)) IN <<n>> \o SubSeq(b, 1, n) \o Blocks(SubSeq(b, n + 1, Len(b)))
Compressed(d) == Blocks(Bytes(Bits(Codes(d))))
----------------------------------------------------------------------------
\* The decoder
Load(d, i) == data' = d /\ in' = i /\ ip' = 1 /\ left' = 0 /\ acc' = 0 /\ nb' = 0 /\ tab' = <<>> /\ w' = LitBits + 1 /\ prev' = None /\ at' = 0 /\ st' = "run"
Start(d, i) == data = d /\ in = i /\ ip = 1 /\ left = 0 /\ acc = 0 /\ nb = 0 /\ tab = <<>> /\ w = LitBits + 1 /\ prev = None /\ at = 0 /\ st = "run"
Feed == /\ st = "run" /\ nb < w
        /\ IF ip > Len(in) THEN st' = "no end" /\ UNCHANGED <<ip, left, acc, nb>>
           ELSE IF left = 0 THEN ip' = ip + 1 /\ left' = in[ip] /\ UNCHANGED <<acc, nb, st>>
           ELSE ip' = ip + 1 /\ left' = left - 1 /\ acc' = acc + in[ip] * P2[nb] /\ nb' = nb + ByteBits /\ st' = st
        /\ UNCHANGED <<data, in, tab, w, prev, at>>
Piece(c) == IF c < Clear THEN <<at, 1>> ELSE IF c < FirstCode + Len(tab) THEN tab[c - FirstCode + 1] ELSE <<prev[1], prev[2] + 1>>
Same(c, p) == /\ at + p[2] <= Len(data)
              /\ IF c < Clear THEN data[at + 1] = c ELSE \A i \in 1..p[2] : data[at + i] = data[p[1] + i]
Code == /\ st = "run" /\ nb >= w
        /\ LET c == acc % P2[w]
               p == Piece(c)
               full == FirstCode + Len(tab) >= P2[MaxWidth]
               bad == c > FirstCode + Len(tab) \/ (c = FirstCode + Len(tab) /\ (prev = None \/ full \/ "no-kwkwk" \in Flaws))
           IN /\ acc' = acc \div P2[w] /\ nb' = nb - w
              /\ IF c = Clear THEN tab' = <<>> /\ w' = LitBits + 1 /\ prev' = None /\ UNCHANGED <<at, st>>
                 ELSE IF c = Eoi THEN st' = "end" /\ UNCHANGED <<tab, w, prev, at>>
                 ELSE IF bad \/ ~Same(c, p) THEN st' = "wrong" /\ UNCHANGED <<tab, w, prev, at>>
                 ELSE /\ at' = at + p[2] /\ prev' = <<at, p[2]>> /\ st' = st
                      /\ tab' = IF prev = None \/ full THEN tab ELSE Append(tab, <<prev[1], prev[2] + 1>>)
                      /\ w' = Grow(FirstCode + Len(tab'), w)
        /\ UNCHANGED <<data, in, ip, left>>
Decode == Feed \/ Code
Restored == st \in {"run", "end"} /\ (st = "end" => at = Len(data) /\ left = 0 /\ acc = 0 /\ nb < ByteBits)
----------------------------------------------------------------------------
\* Where the data ends in a record: the candidates are the positions at which
\* a block would start but the next record is found
IsMarker(s, p) == p + Len(Marker) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(Marker) - 1) = Marker
RECURSIVE Candidates(_, _)
Candidates(s, p) == IF p > Len(s) THEN <<>> ELSE (IF IsMarker(s, p) THEN <<p>> ELSE <<>>) \o Candidates(s, p + s[p] + 1)
\* the codes up to position e end with Eoi
RECURSIVE Unblock(_)
Unblock(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 2, MinOf(s[1] + 1, Len(s))) \o Unblock(SubSeq(s, s[1] + 2, Len(s)))
RECURSIVE Ends(_, _, _, _)
\* bits b, entries t (their number only), width, whether a code came before
Ends(b, t, width, some) ==
  IF Len(b) < width THEN FALSE
  ELSE LET c == Sum(SubSeq(b, 1, width)) r == SubSeq(b, width + 1, Len(b)) IN
       IF c = Eoi THEN TRUE ELSE IF c = Clear THEN Ends(r, 0, LitBits + 1, FALSE)
       ELSE LET n == IF some /\ FirstCode + t < P2[MaxWidth] THEN t + 1 ELSE t IN Ends(r, n, EncGrow(FirstCode + n, width), TRUE)
RECURSIVE AllBits(_)
AllBits(b) == IF b = <<>> THEN <<>> ELSE [i \in 1..ByteBits |-> (Head(b) \div P2[i - 1]) % 2] \o AllBits(Tail(b))
Complete(s) == Ends(AllBits(Unblock(s)), 0, LitBits + 1, FALSE)
Extent(s) ==
  LET cs == Candidates(s, 1)
      good == {k \in DOMAIN cs : Complete(SubSeq(s, 1, cs[k] - 1))}
  IN IF "any-marker" \in Flaws THEN (CHOOSE p \in 1..Len(s) : IsMarker(s, p) /\ \A q \in 1..(p - 1) : ~IsMarker(s, q)) - 1
     ELSE IF "first-marker" \in Flaws \/ good = {} THEN cs[1] - 1
     ELSE cs[CHOOSE k \in good : \A j \in good : k <= j] - 1
=============================================================================
