---- MODULE AesCheck ----
(* Values of the operators that Aes.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Aes
VARIABLES vn, K
B(k, len) == Pattern((vn * 7919) + k, len)
KeyOf(i) == KeyExpansion(Pattern((i * 7919) + 1, 16))
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
W(k) == BytesToWordsBE(B(k, 16))
Vals == <<K, [m \in {FullRounds, SixRounds} |-> <<EncryptBlock(K, m, W(2)), EncryptBytes(K, m, B(3, 16))>>], Round(W(4), W(5))>>
Init == vn = 0 /\ K = KeyOf(0)
Next == vn < 30 /\ vn' = vn + 1 /\ K' = KeyOf(vn + 1)
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
