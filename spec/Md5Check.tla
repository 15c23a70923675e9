---- MODULE Md5Check ----
(* Values of the operators that Md5.java overrides, printed: setup evaluates this module with and without the class. *)
EXTENDS Md5
VARIABLE vn
B(k, len) == Pattern((vn * 7919) + k, len)
Lens == <<0, 1, 3, 4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100>>
L == Lens[(vn % 14) + 1]
M == Lens[((vn * 5) % 14) + 1]
Z == <<0, L>>
Sd == (vn * 104729) - 500000
C == [Md5Add(Md5New, B(1, L)) EXCEPT !.lo = IF vn % 2 = 0 THEN 0 - vn ELSE @]
Vals == <<Transform(BytesToWordsLE(B(1, 16)), BytesToWordsLE(B(2, 64))), Md5Add(C, B(3, M)), Md5AddLong(C, Sd, <<0, vn>>)>>
Init == vn = 0
Next == vn < 70 /\ vn' = vn + 1
Show == PrintT("VAL " \o ToString(<<vn, Vals>>))
====
