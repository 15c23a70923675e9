------------------------------ MODULE ProcModel -----------------------------
(***************************************************************************)
(* Modules and the rest of a process, which changes settings of its own at *)
(* any time.  A call may use a process-wide setting while it runs, if it   *)
(* puts it back on every path, and its result is a function of its input.  *)
(*   "early"    a path that ends early does not put the setting back       *)
(*   "fixed"    the setting is put back to its usual value, not to the one *)
(*              it had                                                     *)
(*   "depends"  the result depends on the setting                          *)
(* Kept: no call changes the setting.  Same: equal inputs, equal results.  *)
(* A reader sees the process only between calls.                           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Defect, Settings, Inputs, MaxCalls
VARIABLES setting, before, saved, at, input, results, calls, changed
vars == <<setting, before, saved, at, input, results, calls, changed>>
Usual == 0
Init == /\ setting \in Settings /\ before = setting /\ saved = Usual /\ at = "idle" /\ input = 0
        /\ results = [i \in Inputs |-> {}] /\ calls = 0 /\ changed = FALSE
Other == /\ at = "idle" /\ setting' \in Settings \ {setting} /\ UNCHANGED <<before, saved, at, input, results, calls, changed>>
Enter(i) == /\ at = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
            /\ at' = "busy" /\ input' = i /\ before' = setting /\ saved' = setting
            /\ UNCHANGED <<setting, results, changed>>
Use == /\ at = "busy" /\ at' = "using" /\ setting' = 1 /\ UNCHANGED <<before, saved, input, results, calls, changed>>
Result(i, s) == IF Defect = "depends" THEN <<i, s>> ELSE <<i, Usual>>
Done(s) == /\ setting' = s /\ at' = "idle"
           /\ changed' = (changed \/ s # before)
           /\ results' = [results EXCEPT ![input] = @ \cup {Result(input, before)}]
           /\ UNCHANGED <<before, saved, input, calls>>
Leave == at = "using" /\ Done(IF Defect = "fixed" THEN Usual ELSE saved)
Early == at = "using" /\ input = 0 /\ Done(IF Defect = "early" THEN setting ELSE saved)
Skip == at = "busy" /\ Done(setting)             \* a call that needs no setting
Next == Other \/ Use \/ Leave \/ Early \/ Skip \/ \E i \in Inputs : Enter(i)
Spec == Init /\ [][Next]_vars
Kept == ~changed
Same == \A i \in Inputs : Cardinality(results[i]) <= 1
=============================================================================
