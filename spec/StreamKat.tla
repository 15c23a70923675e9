----------------------------- MODULE StreamKat -----------------------------
(* Published vectors of the stream ciphers. *)
EXTENDS KatBase
C20 == INSTANCE ChaCha WITH Rounds <- 20
C12 == INSTANCE ChaCha WITH Rounds <- 12
C8 == INSTANCE ChaCha WITH Rounds <- 8
HC == INSTANCE Hc128
RB == INSTANCE Rabbit
SE == INSTANCE Serpent
SO == INSTANCE Sosemanuk
\* RFC 8439, 2.3.2
ASSUME C20!ChaChaBlock(BytesToWordsLE(Upto(32)), BytesToWordsLE(H("000000090000004a00000000")), 1) =
  H("10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e")
\* RFC 8439, 2.1.1
ASSUME C20!QuarterRound(<<WordBE(H("11111111"),1), WordBE(H("01020304"),1), WordBE(H("9b8d6f43"),1), WordBE(H("01234567"),1)>>, 1, 2, 3, 4)
  = <<WordBE(H("ea2a92f4"),1), WordBE(H("cb1cf8ce"),1), WordBE(H("4581472e"),1), WordBE(H("5881c4bb"),1)>>
\* ChaCha8/12, all-zero key and nonce, block 0 (draft-strombergson-chacha-test-vectors)
ASSUME SubSeq(C8!ChaChaBlock(Zeros(8), Zeros(3), 0), 1, 16) = H("3e00ef2f895f40d67f5bb8e81f09a5a1")
ASSUME SubSeq(C12!ChaChaBlock(Zeros(8), Zeros(3), 0), 1, 16) = H("9bf49a6a0755f953811fce125f2683d5")
\* HC-128 submission, key = 0, IV = 0
ASSUME HC!Hc128Packet(HC!Hc128Key(Zeros(32)), 34).ks = SubSeq(H("82001573a003fd3b7fd72ffb0eaf63aac62f12deb629dca72785a66268ec758b1edb36900560898178e0ad009abf1f49"), 1, 34)
\* RFC 4503 appendix A (octet strings reversed)
LOCAL Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
ASSUME RB!RabbitPacket(RB!RabbitKey(Zeros(16)), 16).ks = Rev(H("b15754f036a5d6ecf56b45261c4af702"))
ASSUME RB!RabbitPacket(RB!RabbitKey(Rev(H("912813292e3d36fe3bfc62f1dc51c3ac"))), 16).ks = Rev(H("3d2df3c83ef627a1e97fc38487e2519c"))
ASSUME RB!RabbitPacket(RB!RabbitIV(RB!RabbitKey(Zeros(16)), Zeros(8)), 16).ks = Rev(H("c6a7275ef85495d87ccd5d376705b7ed"))
\* Serpent, 128-bit key (NESSIE set 1 vector 0)
ASSUME WordsToBytesLE(SE!Serpent32(H("80000000000000000000000000000000"), Zeros(4))) = H("264e5481eff42a4606abda06c0bfda3d")
\* Sosemanuk, eSTREAM set 1 vector 0 (256-bit key)
ASSUME SO!SosPacket(SO!SosIV(SO!SosKey(H("80") \o Zeros(31)), Zeros(16)), 32).ks
  = H("1782fabff497a0e89e16e1bcf22f0fe8aa8c566d293aa35b2425e4f26e31c3e7")
\* Sosemanuk submission, appendix A (40-bit key)
ASSUME SO!SosPacket(SO!SosIV(SO!SosKey(H("a7c083feb7")), H("00112233445566778899aabbccddeeff")), 32).ks
  = H("fe81d2162c9a100d04895c454a77515bbe6a431a935cb90e2221ebb7ef502328")
=============================================================================
