------------------------------ MODULE HexModel ------------------------------
(* The codec is a bijection: every byte, every pair of digits, and concatenation (strings up to length 2). *)
EXTENDS Hex
ASSUME \A a \in 0..255 : Decode(Encode(<<a>>)) = <<a>>
ASSUME \A c \in HexDigits, d \in HexDigits : Encode(Decode(<<c, d>>)) = <<c, d>>
ASSUME \A a \in 0..255, b \in 0..255 : Encode(<<a, b>>) = Encode(<<a>>) \o Encode(<<b>>)
ASSUME Encode(<<>>) = <<>> /\ Decode(<<>>) = <<>>
=============================================================================
