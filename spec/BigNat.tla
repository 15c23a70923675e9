------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size as sequences of base-256 digits, least      *)
(* significant first, without leading zeros (zero is <<>>).  As in module  *)
(* Words, TLC may load a Java class that overrides the operators; module   *)
(* BigNatCheck compares the two.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Norm(_)
Norm(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Norm(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Big(n \div 256)
\* from and to big-endian bytes
FromBE(b) == Norm([i \in 1..Len(b) |-> b[Len(b) + 1 - i]])
LOCAL D(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
LOCAL Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE LtDigits(_, _, _)
LtDigits(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtDigits(a, b, i - 1)
LtN(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtDigits(a, b, Len(a))
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > Max(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
                       ELSE LET s == D(a, i) + D(b, i) + c IN <<s % 256>> \o AddFrom(a, b, i + 1, s \div 256)
AddN(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
                       ELSE LET s == a[i] - D(b, i) - c IN <<s % 256>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
SubN(a, b) == Norm(SubFrom(a, b, 1, 0))                  \* a >= b
RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, k, i, c) == IF i > Len(a) THEN Big(c)
                         ELSE LET s == a[i] * k + c IN <<s % 256>> \o ScaleFrom(a, k, i + 1, s \div 256)
LOCAL Scale(a, k) == Norm(ScaleFrom(a, k, 1, 0))
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE AddN(Scale(a, b[i]), Norm(<<0>> \o MulFrom(a, b, i + 1)))
MulN(a, b) == IF a = <<>> THEN <<>> ELSE MulFrom(a, b, 1)
\* largest digit q with q * m <= r
LOCAL Digit(r, m) ==
  LET Bit(q, b) == IF LtN(r, Scale(m, q + b)) THEN q ELSE q + b
  IN  Bit(Bit(Bit(Bit(Bit(Bit(Bit(Bit(0, 128), 64), 32), 16), 8), 4), 2), 1)
\* <<quotient, remainder>>
RECURSIVE DivFrom(_, _, _)
DivFrom(a, m, i) == IF i > Len(a) THEN <<<<>>, <<>>>>
                    ELSE LET h == DivFrom(a, m, i + 1)
                             r == Norm(<<a[i]>> \o h[2])
                             q == Digit(r, m)
                         IN  <<Norm(<<q>> \o h[1]), SubN(r, Scale(m, q))>>
DivModN(a, m) == DivFrom(a, m, 1)
DivN(a, m) == DivModN(a, m)[1]
ModN(a, m) == DivModN(a, m)[2]
LOCAL Half(e) == DivN(e, <<2>>)
RECURSIVE PowModN(_, _, _)
PowModN(a, e, m) == IF e = <<>> THEN ModN(<<1>>, m)
                    ELSE LET h == PowModN(a, Half(e), m)
                             s == ModN(MulN(h, h), m)
                         IN  IF e[1] % 2 = 1 THEN ModN(MulN(s, ModN(a, m)), m) ELSE s
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = <<>> THEN a ELSE GcdN(b, ModN(a, b))
RECURSIVE Pow2N(_)
Pow2N(k) == IF k = 0 THEN <<1>> ELSE MulN(<<2>>, Pow2N(k - 1))
=============================================================================
