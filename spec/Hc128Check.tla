---- MODULE Hc128Check ----
(* Values of the operators that Hc128.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Hc128
VARIABLES vn, S
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
SetupOf(i) == Hc128Init(Pattern((i * 7919) + 1, 16), Pattern((i * 7919) + 2, 16))
Of(W) == <<W, Hc128Long(W.st, Sd, Z)>>
Vals == <<S, Of(Hc128Words(S, (vn * 137) % 1500))>>
Init == vn = 0 /\ S = SetupOf(0)
Next == vn < 14 /\ vn' = vn + 1 /\ S' = SetupOf(vn + 1)
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
