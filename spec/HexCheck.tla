---- MODULE HexCheck ----
(* Values of the operators that Hex.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Hex, TLC
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
T(k, len) == [i \in 1..len |-> HexDigit[B(k, len)[i] % 16]]
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
Sd == (vn * 104729) - 500000
Vals == <<Encode(B(1, L)), Decode(T(2, 2 * L)), Decode(T(3, L)), EncodeLong(Sd, <<0, L>>)>>
Init == vn = 0
Next == vn < 30 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
