---- MODULE Sha256Check ----
(* Values of the operators that Sha256.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Sha256
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
Vals == <<Compress(BytesToWordsBE(B(1, 32)), BytesToWordsBE(B(2, 64))), Digest(B(3, vn)), Digest(B(3, 55 + L)), DigestLong(B(4, M), Sd, Z)>>
Init == vn = 0
Next == vn < 70 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
