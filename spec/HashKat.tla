------------------------------- MODULE HashKat -------------------------------
EXTENDS KatBase
M == INSTANCE Hmac
MD == INSTANCE Md5
D == INSTANCE Des
Ascii(n) == [i \in 1..n |-> 96 + i]
ASSUME M!Digest(<<>>) = H("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")
ASSUME M!Digest(Ascii(3)) = H("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")
\* "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"
ASSUME M!Digest([i \in 1..56 |-> 97 + ((i - 1) \div 4) + ((i - 1) % 4)]) = H("248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1")
\* RFC 4231 cases 1, 5 (truncated), 6 (long key)
ASSUME M!HmacTag(M!HmacKey([i \in 1..20 |-> 11]), H("4869205468657265")) = H("b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7")
ASSUME SubSeq(M!HmacTag(M!HmacKey([i \in 1..20 |-> 12]), H("546573742057697468205472756e636174696f6e")), 1, 16) = H("a3b6167473100ee06e0c796c2955552b")
ASSUME M!HmacTag(M!HmacKey([i \in 1..131 |-> 170]), H("54657374205573696e67204c6172676572205468616e20426c6f636b2d53697a65204b6579202d2048617368204b6579204669727374"))
  = H("60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")
\* RFC 1321 A.5
ASSUME MD!Md5Digest(<<>>) = H("d41d8cd98f00b204e9800998ecf8427e")
ASSUME MD!Md5Digest(Ascii(3)) = H("900150983cd24fb0d6963f7d28e17f72")
ASSUME MD!Md5Digest(Ascii(26)) = H("c3fcd3d76192e4007dfb496cca67e13b")
ASSUME MD!Md5End(MD!Md5Add(MD!Md5Add(MD!Md5New, [i \in 1..50 |-> 48 + (i % 10)]), [i \in 1..30 |-> 48 + (i % 10)])) = H("57edf4a22be3c955ac49da2e2107b67a")
\* DES
ASSUME D!DesBlock(D!DesKeys(H("133457799bbcdff1")), H("0123456789abcdef")) = H("85e813540f0ab405")
ASSUME D!DesBlock(D!Backwards(D!DesKeys(H("133457799bbcdff1"))), H("85e813540f0ab405")) = H("0123456789abcdef")
ASSUME D!DesBlock(D!DesKeys(H("0000000000000000")), H("0000000000000000")) = H("8ca64de9c1b123a7")
=============================================================================
