-------------------------------- MODULE Weak --------------------------------
(* The conversion of neutrons and protons by neutrinos and electrons.  Every *)
(* channel is n (+ incoming leptons) <-> p (+ outgoing leptons); the signs   *)
(* of its leptons and of its direction determine energies, phase space and   *)
(* occupations.  Rates are in units of that of a free neutron in vacuum.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, Terms

VARIABLE case
Signs == {1, 0 - 1}
(* nu: 1 if the neutrino comes in with the neutron, -1 if it goes out (an antineutrino); e: 1 if the electron goes out with the proton, -1 if a positron comes in *)
Channel(nu, e, fwd) == [nu |-> nu, e |-> e, fwd |-> fwd]
All == {Channel(nu, e, f): nu \in Signs, e \in Signs, f \in BOOLEAN}
(* energy of the electron, from q a + nu y = e E: on a lattice of comoving energies, and as a term *)
Energy(c, qa, y) == c.e * (qa + c.nu * y)
EnergyT(c) == IF c.e = 1 THEN (IF c.nu = 1 THEN Add(Mul(Var("q"), Var("a")), Var("y")) ELSE Sub(Mul(Var("q"), Var("a")), Var("y")))
              ELSE (IF c.nu = 1 THEN Neg(Add(Mul(Var("q"), Var("a")), Var("y"))) ELSE Sub(Var("y"), Mul(Var("q"), Var("a"))))
(* the order in which the nucleosynthesis code reads them *)
Order == <<Channel(1, 1, TRUE), Channel(1, 1, FALSE), Channel(0 - 1, 1, TRUE), Channel(0 - 1, 1, FALSE), Channel(0 - 1, 0 - 1, TRUE), Channel(0 - 1, 0 - 1, FALSE)>>
Open(c, qa, ma, y) == Energy(c, qa, y) >= ma

(* a lepton that comes in counts with f, one that goes out with 1 - f; the reverse reaction exchanges them *)
NuIn(c) == (c.nu = 1) = c.fwd
EIn(c) == (c.e = 0 - 1) = c.fwd
(* lattice occupation: f = 1 / (1 + 2^E), i.e. thermal equilibrium with T = 1 / ln 2 *)
RECURSIVE Two(_)
Two(n) == IF n <= 0 THEN 1 ELSE 2 * Two(n - 1)
F(E) == RNorm(1, 1 + Two(E))
Occ(in, f) == IF in THEN f ELSE RSub(R(1), f)
Weight(c, qa, y) == RMul(Occ(NuIn(c), F(y)), Occ(EIn(c), F(Energy(c, qa, y))))

(* the rate as a term: the functions fe and fn of the comoving momentum are given by the state *)
OccT(in, f) == IF in THEN f ELSE Sub(Num(1), f)
Pe == Sqrt(Max2(Num(0), Sub(Sq(Var("E")), Sq(Mul(Var("me"), Var("a"))))))
Integrand(c) == Let("E", EnergyT(c), If(Ge(Var("E"), Mul(Var("me"), Var("a"))),
                 Let("pe", Pe, Prod(<<Sq(Var("y")), Var("pe"), Var("E"), OccT(EIn(c), Var("fe(pe)")), OccT(NuIn(c), Var("fn(y)"))>>)), Num(0)))
(* momenta of the neutrino: those of its grid, and never beyond what the energy allows *)
Threshold(c) == IF c.e = 1 THEN (IF c.nu = 1 THEN "none" ELSE "above") ELSE "below"
Lo(c) == IF Threshold(c) = "below" THEN Max2(Var("min"), Mul(Add(Var("q"), Var("me")), Var("a"))) ELSE Var("min")
Hi(c) == IF Threshold(c) = "above" THEN Mul(Sub(Var("q"), Var("me")), Var("a")) ELSE Var("max")
Rate(c) == Div(Mul(Var("norm"), If(Lt(Lo(c), Hi(c)), Integral("y", Integrand(c), Lo(c), Hi(c)), Num(0))), Pow(Var("a"), Num(5)))

Init == case \in [qa: 1..5, ma: 1..2, y: 0..8]
Next == UNCHANGED case
(* laws *)
Closed == \A f \in BOOLEAN: ~Open(Channel(1, 0 - 1, f), case.qa, case.ma, case.y)               \* the channel not listed never happens
Listed == {Order[i]: i \in 1..6} = All \ {Channel(1, 0 - 1, TRUE), Channel(1, 0 - 1, FALSE)}
Windows == \A i \in 1..6: Open(Order[i], case.qa, case.ma, case.y) <=>
             CASE Threshold(Order[i]) = "none" -> case.qa >= case.ma - case.y
               [] Threshold(Order[i]) = "above" -> case.y <= case.qa - case.ma
               [] Threshold(Order[i]) = "below" -> case.y >= case.qa + case.ma
(* in thermal equilibrium forward and backward differ by the Boltzmann factor of the mass difference, momentum by momentum *)
Detailed == \A i \in {1, 3, 5}: Open(Order[i], case.qa, case.ma, case.y) =>
              Weight(Order[i], case.qa, case.y) = RMul(R(Two(case.qa)), Weight(Order[i + 1], case.qa, case.y))
(* in vacuum only the decay of the free neutron is left *)
Vacuum == \A i \in 1..6: (~NuIn(Order[i]) /\ ~EIn(Order[i])) <=> i = 3
Emit == (case = [qa |-> 1, ma |-> 1, y |-> 0]) => PrintT("@@" \o ToJson([rates |-> [i \in 1..6 |-> Rate(Order[i])], vacuum |-> [i \in 1..6 |-> i = 3]]))
(* states of the plasma in which the real rates are evaluated *)
InitCases == case \in [leptons: {"vacuum", "full", "equilibrium", "hot neutrinos", "degenerate", "distorted", "electrons only", "neutrinos only", "constant"},
                       a: 1..7, grid: {"fine", "short", "late", "shortest"}]
EmitCases == PrintT("@@" \o ToJson(case))
=============================================================================
