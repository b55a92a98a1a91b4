------------------------------- MODULE Filters -------------------------------
(* Selecting integrals by the species they involve and by their kind, and    *)
(* species by name; kinds of reactions.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLE case
Species == {"A", "B", "C"}
RECURSIVE SumI(_, _)
SumI(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumI(f, n - 1)
Leg == [name: Species, side: {0 - 1, 1}]
Reactions == {r \in [1..3 -> Leg] \cup [1..4 -> Leg]: r[1].side = 0 - 1}
Small == {r \in Reactions: \A i \in 2..Len(r): r[i].name \in {"A", "B"} \/ i = 2}
SideSum(r) == SumI(LAMBDA i: r[i].side, Len(r))
Left(r) == Cardinality({i \in DOMAIN r: r[i].side = 0 - 1})
Right(r) == Cardinality({i \in DOMAIN r: r[i].side = 1})
(* the evolved particle is produced together with others from one: creation; it decays alone: decay; two against two: scattering *)
Kind(r) == CASE Right(r) = 1 /\ Left(r) >= 2 -> "creation" [] Left(r) = 1 /\ Right(r) >= 2 -> "decay" [] Left(r) = 2 /\ Right(r) = 2 -> "scattering" [] OTHER -> "other"

Keep(r, names, first, sums) == /\ IF first THEN r[1].name \notin names ELSE \A i \in DOMAIN r: r[i].name \notin names
                               /\ SideSum(r) \notin sums
Args == [names: SUBSET Species, first: BOOLEAN, sums: {{}, {0 - 2}, {0}, {2, 0 - 1}, {1, 0}}]
Init == case \in [r: Small, a: Args]
Next == UNCHANGED case
(* laws: a selection never brings back what another removed; first only is the weaker one *)
Weaker == Keep(case.r, case.a.names, FALSE, case.a.sums) => Keep(case.r, case.a.names, TRUE, case.a.sums)
Union == \A N \in SUBSET Species: Keep(case.r, case.a.names \cup N, case.a.first, case.a.sums)
           <=> (Keep(case.r, case.a.names, case.a.first, case.a.sums) /\ Keep(case.r, N, case.a.first, {}))
Everything == Keep(case.r, {}, case.a.first, {})
OneKind == Kind(case.r) \in {"creation", "scattering", "decay", "other"}
Emit == PrintT("@@" \o ToJson([r |-> case.r, a |-> case.a, keep |-> Keep(case.r, case.a.names, case.a.first, case.a.sums), kind |-> Kind(case.r)]))
=============================================================================
