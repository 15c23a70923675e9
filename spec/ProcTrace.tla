------------------------------ MODULE ProcTrace -----------------------------
(***************************************************************************)
(* What belongs to the process and not to a call - what was printed, the C *)
(* library's random numbers, floating-point modes, locale, environment,    *)
(* directory, signals, limits, how others' output is formatted, open       *)
(* files, threads - is as the process was started with after every call.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES l, proc
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Init == l = 1 /\ proc = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (IF E.e = "AsStarted" THEN proc = <<>> /\ proc' = E.proc
            ELSE E.e # "Fault" /\ proc # <<>> /\ E.proc = proc /\ UNCHANGED proc)
Spec == Init /\ [][Next]_<<l, proc>>
View == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
