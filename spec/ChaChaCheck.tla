---- MODULE ChaChaCheck ----
(* Values of the operators that ChaCha.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS ChaCha
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
St == [key |-> BytesToWordsLE(B(1, 32)), nonce |-> BytesToWordsLE(B(2, 12))]
Ctr == IF vn % 3 = 0 THEN 0 - vn ELSE vn * 65535
Vals == [r \in {8, 12, 20} |-> <<BlockOf(r, St.key, St.nonce, Ctr), SumOf(r, St, Sd, <<0, 3 * L>>)>>]
Init == vn = 0
Next == vn < 30 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
