---- MODULE SosemanukCheck ----
(* Values of the operators that Sosemanuk.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Sosemanuk
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
S == SosIV(SosKey(B(1, vn % 33)), B(2, 16))
Vals == <<[j \in 0..7 |-> LET w == WordBE(B(3, 32), 4 * j + 1) IN <<MulAlpha(w), DivAlpha(w)>>], SosBlocks(S, vn), SosLong(S, Sd, Z)>>
Init == vn = 0
Next == vn < 30 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
