-------------------------------- MODULE Said --------------------------------
(* What the log of a run says when steps take time: a line before a step     *)
(* (and one at the end of the run) iff the throttle let output through at    *)
(* the end of the step before; the first step always speaks.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Rates, Durations, MaxSteps
VARIABLES rate, now, last, out, said, took, over
vars == <<rate, now, last, out, said, took, over>>
Init == rate \in Rates /\ now = 0 /\ last = 0 /\ out = TRUE /\ said = << >> /\ took = << >> /\ over = FALSE
Line == said' = IF out THEN Append(said, [step |-> Len(took) + 1, at |-> now]) ELSE said
Step(d) == /\ ~over /\ Len(took) < MaxSteps
           /\ Line
           /\ took' = Append(took, d) /\ now' = now + d
           /\ out' = (now' - last >= rate)
           /\ last' = IF out' THEN now' ELSE last
           /\ UNCHANGED <<rate, over>>
End == ~over /\ Len(took) = MaxSteps /\ Line /\ over' = TRUE /\ UNCHANGED <<rate, now, last, out, took>>
Next == (\E d \in Durations: Step(d)) \/ End
Spec == Init /\ [][Next]_vars
(* lines are never closer than the rate *)
Spaced == \A i \in 2..Len(said): said[i].at - said[i - 1].at >= rate
(* the run is never silent over a whole step longer than the rate *)
RECURSIVE Start(_)
Start(k) == IF k = 1 THEN 0 ELSE Start(k - 1) + took[k - 1]
Heard == \A k \in 2..Len(took): (took[k - 1] >= rate /\ (k < Len(took) \/ over)) => \E i \in 1..Len(said): said[i].step = k
Speaks == took # << >> => said # << >> /\ said[1].step = 1
Emit == over => PrintT("@@" \o ToJson([rate |-> rate, took |-> took, said |-> [i \in 1..Len(said) |-> said[i].step]]))
=============================================================================
