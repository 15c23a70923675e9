----------------------------- MODULE JlNumbers -----------------------------
(***************************************************************************)
(* The Joye-Libert cryptosystem as predicates over numbers (BigNat).       *)
(* k is the message size in bits.  A ciphertext c encrypts m when its      *)
(* 2^k-th power residue symbol modulo p is that of y^m and c / y^m is a    *)
(* 2^k-th power modulo q; decryption inverts the first condition.          *)
(***************************************************************************)
EXTENDS BigNat, TLC
LOCAL One == <<1>>
LOCAL Two == <<2>>
Minus1(a) == SubN(a, One)
\* Miller-Rabin to fixed bases
LOCAL Bases == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47>>
RECURSIVE Odd(_, _)
Odd(d, s) == IF d[1] % 2 = 0 THEN Odd(DivN(d, Two), s + 1) ELSE <<d, s>>     \* n-1 = d * 2^s
RECURSIVE Squares(_, _, _)
Squares(x, s, n) == IF x = Minus1(n) THEN TRUE ELSE IF s <= 1 THEN FALSE ELSE Squares(ModN(MulN(x, x), n), s - 1, n)
Witness(n, a) == LET ds == Odd(Minus1(n), 0)
                     x == PowModN(Big(a), ds[1], n)
                 IN  x # One /\ ~Squares(x, ds[2], n)
SmallPrimes == {x \in 2..255 : \A d \in 2..15 : d < x => x % d # 0}
IsPrime(n) == \/ n \in {Big(x) : x \in SmallPrimes}
              \/ LtN(Big(255), n) /\ n[1] % 2 = 1 /\ \A i \in 1..Len(Bases) : ~Witness(n, Bases[i])
Index(p, k) == DivN(Minus1(p), Pow2N(k))           \* (p-1) / 2^k
Symbol(a, p, k) == PowModN(a, Index(p, k), p)
NonResidue(a, p) == PowModN(a, DivN(Minus1(p), Two), p) = Minus1(p)
\* what key generation must return
GoodKey(N, y, p, k) ==
  LET q == DivN(N, p)
  IN  /\ MulN(p, q) = N /\ p # q
      /\ IsPrime(p) /\ ModN(p, Pow2N(k)) = One /\ IsPrime(Index(p, k))
      /\ IsPrime(q) /\ ModN(q, <<4>>) = <<3>>
      /\ LtN(y, N) /\ GcdN(y, N) = One /\ NonResidue(y, p) /\ NonResidue(y, q)
\* number of bits
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + BitsOf(a[Len(a)])
\* c encrypts m under the key
Encrypts(c, m, N, y, p, k) ==
  LET q == DivN(N, p)
      SqQ(a) == PowModN(a, DivN(Minus1(q), Two), q)      \* Euler's criterion modulo q
  IN  /\ LtN(c, N) /\ GcdN(c, N) = One
      /\ Symbol(c, p, k) = PowModN(Symbol(y, p, k), m, p)
      /\ SqQ(c) = PowModN(SqQ(y), m, q)
\* m is the decryption of any unit c
DecryptsTo(c, m, y, p, k) == LtN(m, Pow2N(k)) /\ Symbol(c, p, k) = PowModN(Symbol(y, p, k), m, p)
\* arithmetic modulo 2^k
AddK(a, b, k) == ModN(AddN(a, b), Pow2N(k))
MulK(a, b, k) == ModN(MulN(a, b), Pow2N(k))
SubK(a, b, k) == ModN(SubN(AddN(a, Pow2N(k)), ModN(b, Pow2N(k))), Pow2N(k))
=============================================================================
