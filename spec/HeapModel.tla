------------------------------ MODULE HeapModel -----------------------------
(***************************************************************************)
(* Laps of the same calls over objects, and the reader of HeapTrace, which *)
(* compares what is allocated after each call with the lap before.  A call *)
(* takes temporary blocks, may end early (a rejected packet, nothing to    *)
(* do), gives its temporaries back, and may give its object a block to     *)
(* keep; an object keeps at most one, whatever it held before.             *)
(*   ""          every path gives back what it took                        *)
(*   "early"     ending early forgets the temporaries                      *)
(*   "renew"     the object's block is replaced and not given back         *)
(*   "cache"     the first call of the process allocates for good          *)
(* Bounded: a correct implementation never holds more than its objects'    *)
(* blocks between calls.  Read: the reader accepts exactly the bounded.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Defect, Objects, MaxCalls, Laps, Warm
VARIABLES prog, lap, pc, at, temps, kept, lost, cache, log, alarm
vars == <<prog, lap, pc, at, temps, kept, lost, cache, log, alarm>>
Kinds == {"init", "full", "early"}
Init == /\ prog \in UNION {[1..n -> Objects \X Kinds] : n \in 1..MaxCalls}
        /\ lap = 1 /\ pc = 1 /\ at = "idle" /\ temps = 0 /\ kept = [o \in Objects |-> 0] /\ lost = 0 /\ cache = 0
        /\ log = <<>> /\ alarm = FALSE
Object == prog[pc][1]
Kind == prog[pc][2]
Enter == /\ at = "idle" /\ lap <= Laps
         /\ cache' = IF Defect = "cache" THEN 1 ELSE cache
         /\ temps' = IF Kind = "init" THEN 0 ELSE IF Kind = "early" THEN 1 ELSE 2
         /\ (IF Kind = "init"
             THEN /\ kept' = [kept EXCEPT ![Object] = 1]
                  /\ lost' = IF Defect = "renew" THEN lost + kept[Object] ELSE lost
             ELSE UNCHANGED <<kept, lost>>)
         /\ at' = "busy" /\ UNCHANGED <<prog, lap, pc, log, alarm>>
Total(k, x, c) == Cardinality({o \in Objects : k[o] = 1}) + x + c
Leave == /\ at = "busy"
         /\ lost' = IF Defect = "early" /\ Kind = "early" THEN lost + temps ELSE lost
         /\ temps' = 0
         /\ LET held == Total(kept, lost', cache)
                i == (Warm * Len(prog)) + pc          \* the same call in the lap the reader learns from
            IN  /\ log' = Append(log, held)
                /\ alarm' = (alarm \/ (lap > Warm + 1 /\ log[i] # held))
         /\ pc' = IF pc = Len(prog) THEN 1 ELSE pc + 1
         /\ lap' = IF pc = Len(prog) THEN lap + 1 ELSE lap
         /\ at' = "idle" /\ UNCHANGED <<prog, kept, cache>>
Next == Enter \/ Leave
Spec == Init /\ [][Next]_vars
Bounded == at = "idle" => Total(kept, lost, cache) <= Cardinality(Objects) + 1
Quiet == ~alarm
\* with a defect that loses memory on a path the programme takes, the reader notices by the end
Read == lap > Laps => (alarm <=> lost > 0)
=============================================================================
