---------------------------- MODULE BigNatCheck ----------------------------
(* Compares BigNat (possibly overridden by BigNat.java) with BigNatPure, the same text under another name. *)
EXTENDS BigNat, TLC
P == INSTANCE BigNatPure
VARIABLES a, b, n
Corner == {<<>>, <<1>>, <<2>>, <<255>>, <<0, 1>>, <<255, 255>>, <<0, 0, 1>>, <<1, 0, 0, 0, 128>>, <<7, 1>>, <<254, 255, 255, 127>>, <<3, 200, 0, 17>>}
Init == a \in Corner /\ b \in Corner /\ n = 0
Mod == <<41, 7, 99, 250, 13>>
Next == n < 3 /\ n' = n + 1 /\ a' = P!ModN(P!AddN(P!MulN(a, <<5, 219, 3>>), P!AddN(b, <<11>>)), Mod) /\ b' = P!AddN(P!MulN(b, <<77>>), P!Big(n))
Agree ==
  /\ LtN(a, b) = P!LtN(a, b) /\ LtN(a, a) = P!LtN(a, a)
  /\ AddN(a, b) = P!AddN(a, b) /\ MulN(a, b) = P!MulN(a, b) /\ GcdN(a, b) = P!GcdN(a, b)
  /\ ~LtN(a, b) => SubN(a, b) = P!SubN(a, b)
  /\ b # <<>> => DivModN(a, b) = P!DivModN(a, b) /\ DivN(a, b) = P!DivN(a, b) /\ ModN(a, b) = P!ModN(a, b)
                 /\ DivModN(P!MulN(a, a), b) = P!DivModN(P!MulN(a, a), b)
                 /\ PowModN(a, P!ModN(b, <<201, 3>>), b) = P!PowModN(a, P!ModN(b, <<201, 3>>), b)
  /\ PowModN(a, <<n, 1>>, Mod) = P!PowModN(a, <<n, 1>>, Mod)
  /\ Norm(a \o <<0, 0>>) = P!Norm(a \o <<0, 0>>) /\ FromBE(<<0>> \o a) = P!FromBE(<<0>> \o a)
  /\ Big(Len(a) * 1000) = P!Big(Len(a) * 1000) /\ Pow2N(7 * n) = P!Pow2N(7 * n)
Small == \A x \in {0, 1, 7, 255, 256, 1000}, y \in {1, 2, 255, 257, 999} :
           /\ P!AddN(P!Big(x), P!Big(y)) = P!Big(x + y) /\ P!MulN(P!Big(x), P!Big(y)) = P!Big(x * y)
           /\ P!DivModN(P!Big(x), P!Big(y)) = <<P!Big(x \div y), P!Big(x % y)>>
           /\ P!LtN(P!Big(x), P!Big(y)) = (x < y)
           /\ x >= y => P!SubN(P!Big(x), P!Big(y)) = P!Big(x - y)
ASSUME Small
=============================================================================
