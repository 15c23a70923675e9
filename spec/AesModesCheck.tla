---- MODULE AesModesCheck ----
(* Values of the operators that AesModes.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS AesModes
VARIABLES vn, K
B(k, len) == Pattern((vn * 7919) + k, len)
KeyOf(i) == KeyExpansion(Pattern((i * 7919) + 1, 16))
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
Ctr == IF vn % 3 = 0 THEN 0 - (vn % 5) ELSE vn * 65535
Pair(r) == <<r.sum, r.reg>>
Of(m) == <<CtrOut(K, m, B(2, 12), Ctr, B(3, L)), CfbEncOut(K, m, B(2, 16), B(3, L)), CfbDecOut(K, m, B(2, 16), B(3, L)),
           CtrLong(K, m, B(2, 12), Ctr, Sd, Z), Pair(CfbEncLong(K, m, B(2, 16), Sd, Z)), Pair(CfbDecLong(K, m, B(2, 16), Sd, Z))>>
Vals == <<Of(FullRounds), Of(SixRounds)>>
Init == vn = 0 /\ K = KeyOf(0)
Next == vn < 30 /\ vn' = vn + 1 /\ K' = KeyOf(vn + 1)
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
