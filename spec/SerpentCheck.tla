---- MODULE SerpentCheck ----
(* Values of the operators that Serpent.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Serpent
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
Vals == [k \in 0..7 |-> SBoxW(k, BytesToWordsBE(B(k, 16)))]
Init == vn = 0
Next == vn < 30 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
