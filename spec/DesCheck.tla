---- MODULE DesCheck ----
(* Values of the operators that Des.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Des
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
K == DesKeys(B(1, 8))
Vals == <<DesBlock(K, B(2, 8)), EcbLong(K, Sd, <<0, 8 * (vn % 4)>>)>>
Init == vn = 0
Next == vn < 30 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
