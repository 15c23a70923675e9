------------------------------- MODULE AesKat -------------------------------
EXTENDS Aes
LOCAL Key1 == [i \in 1..16 |-> i - 1]
LOCAL Pt1 == [i \in 1..16 |-> (i - 1) * 17]
ASSUME SBox[0] = 99 /\ SBox[83] = 237 /\ SBox[255] = 22
ASSUME {SBox[i] : i \in 0..255} = 0..255
\* FIPS 197 appendix C.1
ASSUME EncryptBytes(KeyExpansion(Key1), FullRounds, Pt1) =
  <<105,196,224,216,106,123,4,48,216,205,183,128,112,180,197,90>>
\* FIPS 197 appendix A.1: last word of the schedule
ASSUME KeyExpansion(<<43,126,21,22,40,174,210,166,171,247,21,136,9,207,79,60>>)[11][4] = WordBE(<<182,99,12,166>>, 1)
=============================================================================
