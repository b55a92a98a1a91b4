--------------------------- MODULE EvolutionTrace ---------------------------
(* Recorded runs of a real universe, event by event, against Evolution.      *)
EXTENDS Evolution, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)      \* one run: sequence of [kind, who, gives]
VARIABLES l, bad
Gives(e) == {e.gives[i]: i \in 1..Len(e.gives)}
Init == EvInit /\ l = 1 /\ bad = <<>>
(* an event the protocol does not allow is remembered, and skipped *)
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               ok == /\ bad = <<>> /\ Phases[ph] = e.kind /\ e.who \in Everyone(ph, active) \ done
           IN \/ /\ ok /\ Do(e.kind, e.who, Gives(e)) /\ UNCHANGED bad
              \/ /\ ~ok /\ UNCHANGED ev
                 /\ bad' = IF bad = <<>> THEN <<ToString(l), e.kind, e.who, "not allowed in phase", Phases[ph]>> ELSE bad
        /\ l' = l + 1
Emit == l > Len(Trace) => PrintT("@@" \o ToJson([bad |-> bad, steps |-> n, atStart |-> (ph = Start /\ done = {})]))
=============================================================================
