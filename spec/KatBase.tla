------------------------------ MODULE KatBase ------------------------------
(* Hexadecimal literals for known-answer assumptions. *)
EXTENDS Naturals, Sequences, Words, TLC
LOCAL Digits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
LOCAL D(c) == (CHOOSE i \in 1..16 : Digits[i] = c) - 1
H(s) == [i \in 1..(Len(s) \div 2) |-> 16 * D(SubSeq(s, 2*i - 1, 2*i - 1)) + D(SubSeq(s, 2*i, 2*i))]
Upto(n) == [i \in 1..n |-> i - 1]
=============================================================================
