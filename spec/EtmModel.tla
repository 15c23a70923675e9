------------------------------- MODULE EtmModel -------------------------------
(***************************************************************************)
(* Small model behind EtmChannel.  A sender and a receiver of mode "cfb"   *)
(* (register carried over) or "iv" (fresh IV in each packet); blocks of B  *)
(* symbols; every ciphertext symbol is a new value, so a symbol is read    *)
(* correctly exactly when the feedback of its block is the one it was      *)
(* made with.  The adversary delivers any packet made so far any number    *)
(* of times in any order, or a forgery (which the ideal MAC rejects).      *)
(* Order = FALSE instead models a receiver that decrypts before it         *)
(* validates: its register is moved by forgeries, and Recoverable fails.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS B, MaxLen, MaxPackets, MaxDeliveries, Mode, Order
VARIABLES regS, regR, made, next, last, n
vars == <<regS, regR, made, next, last, n>>
LastB(x) == SubSeq(x, Len(x) - B + 1, Len(x))
Fb(reg, c, j) == LET i == (j - 1) \div B IN IF i = 0 THEN reg ELSE SubSeq(c, B * (i-1) + 1, B * i)
Iv0 == [i \in 1..B |-> 0]
Init == /\ regS = Iv0 /\ regR = Iv0 /\ made = <<>> /\ next = 1 /\ n = 0
        /\ last = [kind |-> "none"]
Send(k) ==
  /\ Len(made) < MaxPackets
  /\ LET c == [i \in 1..k |-> next + i - 1]
         r == IF Mode = "iv" THEN [i \in 1..B |-> next + k + i - 1] ELSE regS      \* a fresh IV
     IN  /\ made' = Append(made, [ct |-> c, reg |-> r])
         /\ next' = next + k + (IF Mode = "iv" THEN B ELSE 0)
         /\ regS' = LastB(regS \o c)
  /\ last' = [kind |-> "none"] /\ UNCHANGED <<regR, n>>
Deliver(i) ==
  LET p == made[i]
      r == IF Mode = "iv" THEN p.reg ELSE regR
  IN  /\ n < MaxDeliveries /\ n' = n + 1
      /\ last' = [kind |-> "taken", i |-> i, reg |-> r, right |-> [j \in 1..Len(p.ct) |-> Fb(r, p.ct, j) = Fb(p.reg, p.ct, j)]]
      /\ regR' = LastB(regR \o p.ct)
      /\ UNCHANGED <<regS, made, next>>
\* one symbol replaced, or the tag
Forge(i, j) ==
  LET p == made[i]
  IN  /\ n < MaxDeliveries /\ n' = n + 1
      /\ last' = [kind |-> "refused"]
      /\ regR' = IF Order \/ j = 0 THEN regR ELSE LastB(regR \o [p.ct EXCEPT ![j] = 1000])
      /\ UNCHANGED <<regS, made, next>>
Next == \/ \E k \in 0..MaxLen : Send(k)
        \/ \E i \in 1..Len(made) : Deliver(i) \/ \E j \in 0..Len(made[i].ct) : Forge(i, j)
Spec == Init /\ [][Next]_vars
Taken == last.kind = "taken"
\* what EtmChannel asks of a receiver
TailRight == Taken => \A j \in DOMAIN last.right : j > B => last.right[j]
AllRight == Taken /\ (Mode = "iv" \/ last.reg = made[last.i].reg) => \A j \in DOMAIN last.right : last.right[j]
Recoverable == [][\A i \in 1..Len(made) :
   (last'.kind = "refused" /\ Mode = "cfb") => (regR' = regR)]_vars
=============================================================================
