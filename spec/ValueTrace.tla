----------------------------- MODULE ValueTrace -----------------------------
(***************************************************************************)
(* Several executions of the homomorphic modules, read as one behaviour.   *)
(* Nothing is assumed about what an operation computes except that it is a *)
(* function of the values of its operands: an operation seen before with   *)
(* equal operands - in another execution, in other places, over an operand *)
(* or apart, after other operations, in another thread - must have equal   *)
(* results, and no place but that of the result may have changed.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES l, known
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Init == l = 1 /\ known = <<>>
Operate ==
  LET c == <<E.e, E.k, E.x, E.in>>
  IN  /\ E.e \notin {"Begin", "Fault"}
      /\ E.kept = 1
      /\ c \in DOMAIN known => known[c] = E.out
      /\ known' = IF c \in DOMAIN known THEN known ELSE (c :> E.out) @@ known
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (E.e = "Begin" /\ UNCHANGED known) \/ Operate
Spec == Init /\ [][Next]_<<l, known>>
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
