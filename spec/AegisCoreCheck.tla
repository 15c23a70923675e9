---- MODULE AegisCoreCheck ----
(* Values of the operators that AegisCore.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS AegisCore
VARIABLES vn, S
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
SetupOf(i) == Setup(Pattern((i * 7919) + 1, 16), Pattern((i * 7919) + 2, 16))
Of(r) == <<r.tag, r.sum>>
Vals == <<S, Update(S, BytesToWordsBE(B(3, 16))), Absorb(S, B(4, L)), TagOf(S, vn * 12345, 2147483647 - vn),
          Of(SealLong(B(1, 16), B(2, 16), vn, <<0, M>>, Sd, Z)), Seal(B(1, 16), B(2, 16), B(3, L), B(4, M))>>
Init == vn = 0 /\ S = SetupOf(0)
Next == vn < 30 /\ vn' = vn + 1 /\ S' = SetupOf(vn + 1)
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
