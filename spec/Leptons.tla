------------------------------ MODULE Leptons ------------------------------
(* Nucleosynthesis in several universes of one process: every universe is told *)
(* which leptons its rates are those of, at any time and also again; each of    *)
(* its steps records the rates of exactly those, whatever the others are told.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Universes, Sets, MaxSteps

VARIABLES given,    \* universe -> leptons its rates are those of
          rows,     \* universe -> whose rates its rows are
          hist
vars == <<given, rows, hist>>

Init == /\ given = [u \in Universes |-> "none"]
        /\ rows = [u \in Universes |-> <<>>]
        /\ hist = <<>>
Give(u, s) == /\ given' = [given EXCEPT ![u] = s]
              \* a table of rates is that of one set of leptons
              /\ rows' = [rows EXCEPT ![u] = <<>>]
              /\ hist' = Append(hist, [kind |-> "give", u |-> u, what |-> s, rows |-> rows'])
Step(u) == /\ rows' = [rows EXCEPT ![u] = IF given[u] = "none" THEN @ ELSE Append(@, given[u])]
           /\ UNCHANGED given
           /\ hist' = Append(hist, [kind |-> "step", u |-> u, what |-> given[u], rows |-> rows'])
Next == /\ Len(hist) < MaxSteps
        /\ \E u \in Universes: Step(u) \/ \E s \in Sets: Give(u, s)

OwnRates == \A u \in Universes: \A i \in DOMAIN rows[u]: rows[u][i] = given[u]
NoneBefore == \A u \in Universes: given[u] = "none" => rows[u] = <<>>
Emit == Len(hist) = MaxSteps /\ (\E u \in Universes: rows[u] # <<>>) => PrintT("@@" \o ToJson(hist))
=============================================================================
