----------------------------- MODULE JointTrace -----------------------------
(***************************************************************************)
(* Several executions of the real code, recorded one after another, read   *)
(* as one behaviour.  Nothing is assumed about what the algorithms compute *)
(* except that a session's results are a function of the calls made on     *)
(* that session since it was last initialised.  The machine learns that    *)
(* function: known calls form a tree whose nodes are the trace lines where *)
(* a call was first seen after a given history, at[s] is the node session  *)
(* s stands at.  A call seen before after the same history must have the   *)
(* same results, in whichever execution, session, build, memory contents,  *)
(* interleaving or thread it is made.  A Fault, an access of instrumented  *)
(* code outside the memory given to a call or its own, is no step.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Resets,      \* events that initialise a session completely
          NeedFrame,   \* whether a call must also leave everything else alone
          Whole        \* the program is one session, names of objects are part of its calls
VARIABLES l, at, next
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* fields that name places rather than values, or describe memory before the call
Places == IF Whole THEN {"frame"} ELSE {"s", "from", "frame", "prior"}
Results(e) ==
  CASE e.e \in {"Tag", "Seal"} -> {"out", "res", "left", "tag"}
    [] e.e \in {"EncryptLong", "DecryptLong", "ProcessLong", "OpenLong"} -> {"sum", "tag", "res", "blank"}
    [] e.e = "TagLong" -> {"tag"}
    [] e.e = "Encrypt" -> {"out", "tag", "c", "a", "b"}
    [] e.e \in {"KeyGen", "UserKey"} -> {"n", "y", "p", "a", "b", "c", "x"}
    [] e.e \in {"EncMask", "AddL", "SubL", "AddA", "SubA", "Mult", "Mult3"} -> {"a", "b", "c"}
    [] e.e \in {"CMulL", "CMulA"} -> {"a", "b", "c"}
    [] e.e \in {"Product", "Power"} -> {"c"}
    [] e.e \in {"DecL", "DecA", "Decrypt", "Raw"} -> {"m", "out", "res", "ok"}
    [] OTHER -> {"out", "res", "left", "ok"}     \* "done" is part of the call: a counter that cannot be set is another call
Keep(e, S) == [f \in (DOMAIN e) \cap S |-> e[f]]
Call(e) == Keep(e, (DOMAIN e) \ (Results(e) \cup Places))
Result(e) == Keep(e, Results(e) \ Places)
Has(e, f) == f \in DOMAIN e
Node(s) == IF s \in DOMAIN at THEN at[s] ELSE 0
After(n) == IF n \in DOMAIN next THEN next[n] ELSE {}
Init == l = 1 /\ at = <<>> /\ next = <<>>
Begin == Trace[l].e = "Begin" /\ at' = <<>> /\ UNCHANGED next
Step(e) ==
  LET free == ~Whole /\ ~Has(e, "s")          \* a call without a session has no history
      s == IF Whole THEN 0 ELSE e.s
      from == IF free \/ e.e \in Resets THEN 0 ELSE Node(s)
      same == {k \in After(from) : Call(Trace[k]) = Call(e)}
      node == IF same = {} THEN l ELSE CHOOSE k \in same : TRUE
  IN  /\ (IF NeedFrame /\ Has(e, "frame") THEN e.frame = 1 ELSE TRUE)
      /\ same # {} => Result(Trace[node]) = Result(e)
      /\ next' = IF same = {} THEN (from :> (After(from) \cup {l})) @@ next ELSE next
      /\ at' = IF free THEN at ELSE (s :> node) @@ at
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Begin \/ (Trace[l].e \notin {"Begin", "Fault"} /\ Step(Trace[l]))
Spec == Init /\ [][Next]_<<l, at, next>>
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
