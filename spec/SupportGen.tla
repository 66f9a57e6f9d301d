----------------------------- MODULE SupportGen -----------------------------
(* What an engine may hand out before its ordinary values: up to MaxRuns runs  *)
(* of values of one class each; every such sequence is a script for             *)
(* h_support.cpp.                                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Classes, Lens, MaxRuns
VARIABLES runs, out
vars == <<runs, out>>
Init == runs = <<>> /\ out = FALSE
Grow == /\ ~out /\ Len(runs) < MaxRuns
        /\ \E c \in Classes, n \in Lens : (Len(runs) = MaxRuns - 1 \/ n = 1) /\ runs' = Append(runs, <<c, n>>)
        /\ UNCHANGED out
Print1 == /\ ~out /\ runs # <<>>
          /\ PrintT("SCRIPT " \o ToJson([i \in 1..Len(runs) |-> ToString(runs[i][1]) \o "*" \o ToString(runs[i][2])]))
          /\ out' = TRUE /\ UNCHANGED runs
Next == Grow \/ Print1
Spec == Init /\ [][Next]_vars
=============================================================================
