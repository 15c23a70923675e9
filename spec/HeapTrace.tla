------------------------------ MODULE HeapTrace -----------------------------
(***************************************************************************)
(* What is allocated while the real code runs.  The same calls are made    *)
(* lap after lap on the same objects; every line tells how many blocks     *)
(* (and bytes) the process has allocated and how many files it has open    *)
(* after a call.  The laps marked warm may allocate for good, as a cache   *)
(* or a table made on demand would.  After them a call leaves as much      *)
(* allocated as the same call did in the lap before: any number of calls   *)
(* runs in the memory of the first ones.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES l, lap, ref
vars == <<l, lap, ref>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ lap = 0 /\ ref = 0          \* lines at which this lap and the first one to compare with begin
Begin(e) == /\ lap' = l
            /\ ref' = IF ref = 0 /\ e.warm = 0 THEN l ELSE ref
Call(e) == /\ lap # 0
           /\ (IF ref # 0 /\ ref # lap THEN LET o == Trace[ref + (l - lap)]
                                            IN  o.e = e.e /\ o.held = e.held     \* <<blocks, bytes, open files>>
               ELSE TRUE)
           /\ UNCHANGED <<lap, ref>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.e = "Lap" THEN Begin(e) ELSE e.e # "Fault" /\ Call(e)
Spec == Init /\ [][Next]_vars
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
