------------------------------- MODULE Sterile -------------------------------
(* Heavy neutrinos: the temperature at which they start and the momentum     *)
(* grids on which they and their products can be represented.  Masses are    *)
(* in keV.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

CONSTANTS Fine
VARIABLE case
Muon == 105658
Pi0 == 134980
PiC == 139570
QCD == 150000
Neutral == {134980, 547860, 775110, 782650, 957780, 1019460}
Mesons == Neutral \cup {139570, 493677, 497611}
Masses == {1000, 10000, 33900, 50000, 105000, Muon - 1, Muon, Muon + 1, 106000, 115000, 116000, 130000, 134900, Pi0 + 1, 135200, 135500, 137000, PiC + 1, 139700, 139920, 140000, 145000,
           149999, QCD, 150001, 200000, 300000, 450000, 493600, 495000, 500000, 547861, 550000, 600000, 775000, 776000, 780000, 783000, 900000, 958000, 1000000, 1019500, 1100000, 1500000, 2000000}
          \cup (IF Fine THEN {5000 * i + 7: i \in 1..420} ELSE {})
(* open two-body decays into a meson and a massless lepton *)
Open(m, S) == {x \in S: x < m}
Heaviest(m, S) == CHOOSE x \in Open(m, S): \A y \in Open(m, S): y <= x

M == Var("m")
(* relativistic degrees of freedom when a species of this mass decouples: three quark plasma and above, hadrons and muons, electrons and neutrinos *)
Dof4(m) == IF m > QCD THEN 247 ELSE IF m > Muon THEN 57 ELSE 43         \* four times g
(* the rate G_F^2 theta^2 T^5 equals the Hubble rate 1.66 sqrt(g) T^2 / M_p *)
TDec(m) == Pow(Div(Prod(<<Dec("1.66"), Sqrt(Rat(Dof4(m), 4))>>), Prod(<<Var("Mp"), Sq(Var("GF")), Sq(Var("theta"))>>)), Rat(1, 3))
(* the run starts when the neutrinos are still relativistic, or else at half again their mass, or, if they decouple when non-relativistic, at their mass *)
Start(m) == LET x == Mul(Rat(3, 2), TDec(m)) IN If(Gt(x, Mul(Rat(3, 2), M)), x, If(Le(M, x), Mul(Rat(3, 2), M), M))
Relativistic(m) == If(Gt(TDec(m), M), Num(1), Num(0))
(* momentum of the products of a two-body decay at rest into masses b and c *)
Cm(a, b, c) == Div(Sqrt(Max2(Num(0), Sub(Sq(Sub(Sub(Sq(a), Sq(b)), Sq(c))), Sq(Mul(Num(2), Mul(b, c)))))), Mul(Num(2), a))
KeV(x) == Mul(Rat(x, 1000), Var("MeV"))
(* grid of the heavy neutrinos: up to where the initial occupation is 1e-100 *)
MaxHNL(m) == Sqrt(Sub(Sq(Prod(<<Var("MeV"), Num(100), Log(Num(10))>>)), Sq(Div(Mul(M, Var("MeV")), Start(m)))))
(* spread of the comoving momenta of a non-relativistic thermal gas: variance of the modulus is (3 - 8 / pi) of that of a component *)
Spread == Mul(Sqrt(Sub(Num(3), Div(Num(8), Pi))), Var("MeV"))

(* the highest momentum of a product in the rest frame *)
Reach(m) == [neutrino |-> Mul(Rat(1, 2), M),
             lepton |-> IF m > Muon THEN Cm(M, KeV(Muon), Num(0)) ELSE Num(0),
             meson |-> IF m > Pi0 THEN Cm(M, KeV(Pi0), Num(0)) ELSE Num(0)]
(* and in the plasma, comoving, at the scale factor A, from a parent with the mean momentum of a relativistic gas *)
(* (for neutrinos that have become non-relativistic then, as the suggested grids assume) *)
Parent == Mul(Num(3), Var("MeV"))
Boosted(p, mass) == Div(Add(Mul(p, Sqrt(Add(Sq(Parent), Sq(Mul(M, Var("A")))))), Mul(Sqrt(Add(Sq(p), Sq(mass))), Parent)), M)
Moving(m) == [neutrino |-> Boosted(Mul(Rat(1, 2), M), Num(0)),
              lepton |-> IF m > Muon THEN Boosted(Reach(m).lepton, KeV(Muon)) ELSE Num(0),
              meson |-> IF m > Pi0 THEN Boosted(Reach(m).meson, KeV(Pi0)) ELSE Num(0)]
(* width of the line of a product in the momentum, for the spread s of the momenta of the parent of mass a;     *)
(* a line that begins at rest is wide enough                                                                    *)
Line(a, p, mass, s) == LET E == Sqrt(Add(Sq(p), Sq(mass)))
                           d == Div(Mul(s, p), a)
                       IN If(Le(mass, Sub(E, d)), Sub(Sqrt(Sub(Sq(Add(E, d)), Sq(mass))), Sqrt(Max2(Num(0), Sub(Sq(Sub(E, d)), Sq(mass))))), Var("wide"))
Lines(m) == [neutrino |-> IF Open(m, Neutral) = {} THEN Num(0) ELSE Line(M, Cm(M, Num(0), KeV(Heaviest(m, Neutral))), Num(0), Spread),
             meson |-> IF Open(m, Mesons) = {} THEN Num(0) ELSE Line(M, Cm(M, Num(0), KeV(Heaviest(m, Mesons))), KeV(Heaviest(m, Mesons)), Spread),
             lepton |-> IF Open(m, {PiC}) = {} THEN Num(0)      \* muons from thermal pions
                        ELSE Line(KeV(PiC), Cm(KeV(PiC), KeV(Muon), Num(0)), KeV(Muon), Mul(Dec("0.67"), Sqrt(Mul(KeV(PiC), KeV(500)))))]
Init == case \in [m: Masses, k: 1..7]
Next == UNCHANGED case
(* laws *)
Heavy == Open(case.m, Mesons) # {} => (Heaviest(case.m, Mesons) < case.m /\ (Open(case.m, Neutral) # {} => Heaviest(case.m, Neutral) <= Heaviest(case.m, Mesons)))
More == \A x \in Masses: x >= case.m => (Dof4(x) >= Dof4(case.m) /\ Open(case.m, Mesons) \subseteq Open(x, Mesons))
Emit == PrintT("@@" \o ToJson([m |-> case.m, k |-> case.k, tdec |-> TDec(case.m), start |-> Start(case.m), rel |-> Relativistic(case.m), max |-> MaxHNL(case.m), spread |-> Spread,
         reach |-> Reach(case.m), moving |-> Moving(case.m), lines |-> Lines(case.m), opens |-> [neutrino |-> Open(case.m, Neutral) # {}, meson |-> Open(case.m, Mesons) # {}, lepton |-> case.m > PiC]]))
=============================================================================
