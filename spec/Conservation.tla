---------------------------- MODULE Conservation ----------------------------
(* Energy in an expanding universe: the comoving energy of everything        *)
(* changes by the work of the expansion only,                                *)
(*     d (rho a^4) / d log a = (rho - 3 P) a^4 ,                             *)
(* whatever species exchange among each other.  On a lattice of momenta on   *)
(* which all energies are integers (Pythagorean triples), with occupations   *)
(* that are any function of E / T for species in equilibrium and arbitrary   *)
(* for the others, this determines the rate of the comoving temperature.     *)
(* Values are elements of a finite field, so that all of this is exact.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Field

CONSTANTS Seeds         \* of the arbitrary occupations and collision integrals
VARIABLES case
(* comoving momenta and energies of a massless and a massive species *)
Nodes(m) == IF m = 0 THEN <<<<1, 1>>, <<5, 5>>, <<9, 9>>>> ELSE <<<<5, 13>>, <<9, 15>>, <<16, 20>>, <<35, 37>>>>
ASSUME \A m \in {0, 12}: \A i \in DOMAIN Nodes(m): Nodes(m)[i][1] * Nodes(m)[i][1] + m * m = Nodes(m)[i][2] * Nodes(m)[i][2]
Some(seed, m, i, k) == FE(FPow(7 + 2 * seed + 31 * k, 40 + 5 * i + m) + 11 * k)        \* some value

(* species: [mass, thermal, id]; f: occupation, g: its derivative by E / T if thermal, I: collision integral otherwise *)
Y2(m, i) == FE(Nodes(m)[i][1] * Nodes(m)[i][1])
E(m, i) == FE(Nodes(m)[i][2])
f(s, i) == Some(case.seed, s.mass, i, s.id)
g(s, i) == Some(case.seed + 100, s.mass, i, s.id)
I(s, i) == IF s.id = 1 THEN 0 ELSE Some(case.seed + 200, s.mass, i, s.id)
SumOver(F(_), n) == LET X[i \in 0..n] == IF i = 0 THEN 0 ELSE FAdd(X[i - 1], F(i)) IN X[n]
Over(s, F(_)) == SumOver(F, Len(Nodes(s.mass)))
M2(s) == FE(s.mass * s.mass)
Energy(s) == Over(s, LAMBDA i: FMul(FMul(Y2(s.mass, i), E(s.mass, i)), f(s, i)))
Pressure3(s) == Over(s, LAMBDA i: FMul(FDiv(FMul(Y2(s.mass, i), Y2(s.mass, i)), E(s.mass, i)), f(s, i)))
(* terms of the temperature equation *)
Numerator(s, T) == IF s.thermal THEN Over(s, LAMBDA i: FNeg(FMul(FDiv(FMul(Y2(s.mass, i), M2(s)), T), g(s, i))))
                   ELSE Over(s, LAMBDA i: FMul(FMul(Y2(s.mass, i), E(s.mass, i)), I(s, i)))
Denominator(s, T) == IF s.thermal THEN Over(s, LAMBDA i: FNeg(FMul(FDiv(FMul(Y2(s.mass, i), FMul(E(s.mass, i), E(s.mass, i))), FMul(T, T)), g(s, i)))) ELSE 0
RECURSIVE Total(_, _)
Total(G(_), S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S: TRUE IN FAdd(G(s), Total(G, S \ {s}))
(* the plasma gains what the others lose *)
Rate(S, T) == FDiv(Total(LAMBDA s: IF s.thermal THEN Numerator(s, T) ELSE FNeg(Numerator(s, T)), S), Total(LAMBDA s: Denominator(s, T), S))
(* change of the comoving energy: energies grow with the mass term, d E / d log a = m^2 / E; thermal occupations follow E / T; others their collisions *)
Change(s, T, rate) == Over(s, LAMBDA i: LET dE == FDiv(M2(s), E(s.mass, i))
                                            du == FSub(FDiv(dE, T), FMul(FDiv(E(s.mass, i), FMul(T, T)), rate))
                                            df == IF s.thermal THEN FMul(g(s, i), du) ELSE I(s, i)
                                        IN FMul(Y2(s.mass, i), FAdd(FMul(dE, f(s, i)), FMul(E(s.mass, i), df))))
Work(s) == FSub(Energy(s), Pressure3(s))

Masses == {0, 12}
Worlds == [hot: (SUBSET Masses) \ {{}}, free: SUBSET Masses, coupled: SUBSET Masses]
World(w) == {[thermal |-> TRUE, mass |-> m, id |-> 0]: m \in w.hot} \cup {[thermal |-> FALSE, mass |-> m, id |-> 1]: m \in w.free}
            \cup {[thermal |-> FALSE, mass |-> m, id |-> 2]: m \in w.coupled}
Init == case \in [world: Worlds, T: {1, 2, 5}, seed: Seeds]
Next == UNCHANGED case
S == World(case.world)
(* laws *)
Conserved == LET r == Rate(S, case.T) IN Total(LAMBDA s: Change(s, case.T, r), S) = Total(LAMBDA s: Work(s), S)
Adiabatic == (case.world.hot = {0} /\ case.world.coupled = {}) => Rate(S, case.T) = 0
FreeIsPassive == \* species without collisions do not change the temperature
  LET w == case.world IN Rate(S, case.T) = Rate(World([w EXCEPT !.free = {}]), case.T)
Emit == (case.T = 1 /\ case.seed = 1) => PrintT("@@" \o ToJson(case.world))
=============================================================================
