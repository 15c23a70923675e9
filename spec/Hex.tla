-------------------------------- MODULE Hex --------------------------------
(* Hexadecimal text, as the sequence of character codes. *)
EXTENDS Words
HexDigit == [v \in 0..15 |-> IF v < 10 THEN 48 + v ELSE 55 + v]
DigitVal(c) == IF c < 65 THEN c - 48 ELSE c - 55
HexDigits == {HexDigit[v] : v \in 0..15}
Encode(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i+1) \div 2] IN HexDigit[IF i % 2 = 1 THEN x \div 16 ELSE x % 16]]
Decode(t) == [i \in 1..(Len(t) \div 2) |-> 16 * DigitVal(t[2*i-1]) + DigitVal(t[2*i])]
\* checksum of the text of a long pattern, with the end of the string
EncodeLong(seed, z) == Checksum(Append(Encode(Pattern(seed, Size(z))), 0))
=============================================================================
