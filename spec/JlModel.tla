------------------------------ MODULE JlModel ------------------------------
(***************************************************************************)
(* Bit-by-bit decryption on small primes, for every public element, every  *)
(* message and every randomiser: after j bits the collected value is the   *)
(* message modulo 2^j, each examined power is 1 or -1, and the result is   *)
(* the message.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* primes p with (p-1)/2^k prime, as <<p, k>>
Cases == {<<7, 1>>, <<11, 1>>, <<13, 2>>, <<29, 2>>, <<41, 3>>, <<89, 3>>, <<113, 4>>, <<97, 5>>}
RECURSIVE Pow(_, _, _)
Pow(a, e, p) == IF e = 0 THEN 1 % p ELSE LET h == Pow(a, e \div 2, p) s == (h * h) % p IN IF e % 2 = 1 THEN (s * a) % p ELSE s
Inv(a, p) == Pow(a, p - 2, p)
VARIABLES p, k, y, m, j, mm, B, D, C
vars == <<p, k, y, m, j, mm, B, D, C>>
Init ==
  \E cs \in Cases :
    /\ p = cs[1] /\ k = cs[2]
    /\ y \in {a \in 1..(cs[1] - 1) : Pow(a, (cs[1] - 1) \div 2, cs[1]) = cs[1] - 1}
    /\ m \in 0..(2 ^ cs[2] - 1)
    /\ \E x \in 1..(cs[1] - 1) : LET c == (Pow(y, m, cs[1]) * Pow(x, 2 ^ cs[2], cs[1])) % cs[1]
                                     e == (cs[1] - 1) \div 2 ^ cs[2]
                                 IN  C = Pow(c, e, cs[1]) /\ D = Inv(Pow(y, e, cs[1]), cs[1])
    /\ j = 1 /\ mm = 0 /\ B = 1
z == Pow(C, 2 ^ (k - j), p)
Bit == IF z # 1 THEN 1 ELSE 0
Next == /\ j <= k
        /\ mm' = mm + Bit * B /\ C' = (IF Bit = 1 THEN (C * D) % p ELSE C)
        /\ B' = 2 * B /\ D' = (D * D) % p /\ j' = j + 1 /\ UNCHANGED <<p, k, y, m>>
Spec == Init /\ [][Next]_vars
Collected == mm = m % 2 ^ (j - 1)
Sign == j <= k => z \in {1, p - 1}
Finished == j = k + 1 => mm = m /\ C = 1
=============================================================================
