------------------------------- MODULE LzwMC -------------------------------
(* Compresses every piece of data up to MaxLen, finds its end in a record    *)
(* and decodes it.                                                           *)
EXTENDS Lzw
CONSTANTS Symbols, MaxLen, MA, MB
VARIABLE tail
M == <<MA, MB>>
Init == \E d \in UNION {[1..n -> Symbols] : n \in 0..MaxLen}, t \in {<<>>, <<0, 7>>} : LET c == Compressed(d) IN Start(d, c) /\ tail = t
Next == Decode /\ tail' = tail
Framed == ip = 1 => /\ Extent(in \o Marker \o tail) = Len(in)
Progress == st = "run" => ENABLED Decode
=============================================================================
