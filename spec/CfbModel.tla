------------------------------ MODULE CfbModel ------------------------------
(***************************************************************************)
(* Small model of cipher feedback with carry-over on a faulty channel:     *)
(* blocks of B symbols over {0, 1}, an arbitrary cipher E (every function  *)
(* on blocks is an initial state), packets that are delivered, dropped or  *)
(* corrupted, and receivers started with any IV.  Checks that recovery     *)
(* takes at most B good symbols and that damage stays local.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS B, MaxLen, MaxPackets
VARIABLES E, regS, regR, good, n, lastOK
vars == <<E, regS, regR, good, n, lastOK>>
Block == [1..B -> {0, 1}]
Packet == UNION {[1..k -> {0, 1}] : k \in 0..MaxLen}
LastB(x) == SubSeq(x, Len(x) - B + 1, Len(x))
Min(a, b) == IF a < b THEN a ELSE b
X(a, b) == (a + b) % 2
\* feedback of the block that symbol j of packet c belongs to
Fb(reg, c, j) == LET i == (j - 1) \div B IN IF i = 0 THEN reg ELSE SubSeq(c, B * (i-1) + 1, B * i)
KS(reg, c, j) == E[Fb(reg, c, j)][((j-1) % B) + 1]
\* encryption: the ciphertext is the unique c with c[j] = p[j] + KS(c, j), built left to right
RECURSIVE Enc(_, _, _)
Enc(reg, p, c) == IF Len(c) = Len(p) THEN c
                  ELSE LET j == Len(c) + 1 IN Enc(reg, p, Append(c, X(p[j], KS(reg, c, j))))
Dec(reg, c) == [j \in 1..Len(c) |-> X(c[j], KS(reg, c, j))]
After(reg, c) == LastB(reg \o c)

Init == /\ E \in [Block -> Block]
        /\ regS \in Block /\ regR \in Block
        /\ good = (IF regS = regR THEN B ELSE 0) /\ n = 0 /\ lastOK = TRUE
Send(p, fate, pos) ==
  LET c == Enc(regS, p, <<>>)
      d == IF fate = "corrupt" THEN [c EXCEPT ![pos] = 1 - @] ELSE c
  IN /\ n < MaxPackets /\ n' = n + 1
     /\ regS' = After(regS, c)
     /\ UNCHANGED E
     /\ IF fate = "drop" THEN regR' = regR /\ good' = (IF Len(p) = 0 THEN good ELSE 0) /\ lastOK' = TRUE
        ELSE /\ regR' = After(regR, d)
             /\ good' = IF fate = "corrupt" THEN Min(B, Len(p) - pos) ELSE Min(B, good + Len(p))
             /\ lastOK' =
                  LET q == Dec(regR, d)
                      blk(j) == (j - 1) \div B
                  IN \* a synchronised receiver reads the packet; one flipped symbol damages itself, the rest of its
                     \* block not at all, the next block arbitrarily, and nothing else
                     (good = B) =>
                       \A j \in 1..Len(p) :
                         IF fate = "corrupt"
                         THEN IF j = pos THEN q[j] = 1 - p[j]
                              ELSE blk(j) # blk(pos) + 1 => q[j] = p[j]
                         ELSE q[j] = p[j]
Next == \E p \in Packet : \/ Send(p, "deliver", 0) \/ Send(p, "drop", 0)
                          \/ \E pos \in 1..Len(p) : Send(p, "corrupt", pos)
Spec == Init /\ [][Next]_vars
Synchronised == good = B => regS = regR
DamageIsLocal == lastOK
=============================================================================
