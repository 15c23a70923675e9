--------------------------- MODULE IsolationModel ---------------------------
(***************************************************************************)
(* What the joint reading of executions (JointTrace) can see.  Programs of *)
(* two sessions are run in up to two processes over memory with different  *)
(* contents; the implementation is correct or has one hidden dependency:   *)
(*   "global"    on the last call made in the process,                     *)
(*   "leftover"  on what the object held before it was initialised,        *)
(*   "memory"    on the contents of memory before the call,                *)
(*   "build"     on the build, for one call only.                          *)
(* The reader must accept every execution of the correct implementation,   *)
(* and for each dependency some programme within the bounds is rejected.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Defect, MaxCalls, MaxRuns
Sessions == {1, 2}
Args == {0, 1}
VARIABLES hist, old, glob, mem, runs, calls, known, conflict
vars == <<hist, old, glob, mem, runs, calls, known, conflict>>
Init == /\ hist = [s \in Sessions |-> <<>>] /\ old = [s \in Sessions |-> 0] /\ glob = 0 /\ mem = 0
        /\ runs = 1 /\ calls = 0 /\ known = <<>> /\ conflict = FALSE
Begin == /\ runs < MaxRuns /\ runs' = runs + 1 /\ mem' = 1
         /\ hist' = [s \in Sessions |-> <<>>] /\ old' = [s \in Sessions |-> 0] /\ glob' = 0
         /\ UNCHANGED <<calls, known, conflict>>
\* initialising a session; a result is produced by the calls after it
Start(s, v) ==
  /\ calls < MaxCalls /\ calls' = calls + 1
  /\ old' = [old EXCEPT ![s] = IF hist[s] = <<>> THEN 0 ELSE hist[s][Len(hist[s])] + 1]
  /\ hist' = [hist EXCEPT ![s] = <<v>>] /\ glob' = v + 1
  /\ UNCHANGED <<mem, runs, known, conflict>>
Result(h, s) == CASE Defect = "global" -> <<h, glob>>
                  [] Defect = "leftover" -> <<h, old[s]>>
                  [] Defect = "memory" -> <<h, mem>>
                  [] Defect = "build" -> <<h, IF Len(h) = 3 /\ h[3] = 1 THEN mem ELSE 0>>
                  [] OTHER -> <<h, 0>>
Call(s, c) ==
  LET h == Append(hist[s], c)
      r == Result(h, s)
  IN  /\ hist[s] # <<>> /\ calls < MaxCalls /\ calls' = calls + 1
      /\ hist' = [hist EXCEPT ![s] = h] /\ glob' = c + 1
      /\ conflict' = (conflict \/ (h \in DOMAIN known /\ known[h] # r))
      /\ known' = IF h \in DOMAIN known THEN known ELSE (h :> r) @@ known
      /\ UNCHANGED <<old, mem, runs>>
Next == Begin \/ \E s \in Sessions, v \in Args : Start(s, v) \/ Call(s, v)
Spec == Init /\ [][Next]_vars
NoConflict == ~conflict
=============================================================================
