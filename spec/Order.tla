-------------------------------- MODULE Order --------------------------------
(* Species of a universe in the order of their masses.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxLen
VARIABLE case
Masses == {0, 1, 7, 100}
Init == \E n \in 0..MaxLen: \E f \in [1..n -> Masses]: case = [i \in 1..n |-> [name |-> "S" \o ToString(i), m |-> f[i]]]
Next == UNCHANGED case
Ordered == SortSeq(case, LAMBDA a, b: a.m > b.m)
M(s) == [i \in DOMAIN s |-> s[i].m]
Descending == \A i, j \in DOMAIN Ordered: i < j => Ordered[i].m >= Ordered[j].m
Rearranged == {Ordered[i].name: i \in DOMAIN Ordered} = {case[i].name: i \in DOMAIN case} /\ Len(Ordered) = Len(case)
Stable == SortSeq(Ordered, LAMBDA a, b: a.m > b.m) = Ordered \/ \E i, j \in DOMAIN case: i # j /\ case[i].m = case[j].m
Emit == PrintT("@@" \o ToJson([given |-> case, masses |-> M(Ordered)]))
=============================================================================
