------------------------------- MODULE Thermo -------------------------------
(* Density, energy density, pressure, entropy of a species and its two terms *)
(* of the temperature equation, regime by regime, as expressions.            *)
(* State variables of the expressions: g (dof), T, M, a, aT, x = m a, Ts     *)
(* (plasma temperature), eta (+1 fermion, -1 boson), y (comoving momentum),  *)
(* f, I (distribution and collision integral at y), Y (end of the grid).     *)
(* The terms of the temperature equation are per unit of x in either kind of *)
(* step; the collision integral is per unit of log a in logarithmic steps    *)
(* and per unit of x in linear ones.                                         *)
EXTENDS Integers, Sequences, TLC, Json, Terms

Regimes == {"radiation", "dust", "intermediate", "non-equilibrium"}
Quantities == {"density", "energy_density", "pressure", "entropy", "numerator", "denominator"}

Fermion(n, d) == If(Lt(Num(0), Var("eta")), Rat(n, d), Num(1))
G2 == Div(Var("g"), Mul(Num(2), Sq(Pi)))
G6 == Div(Var("g"), Mul(Num(6), Sq(Pi)))

(* ultra-relativistic: closed forms *)
Zeta3 == Dec("1.2020569031595942")
RadDensity == Prod(<<Fermion(3, 4), Var("g"), Div(Zeta3, Sq(Pi)), Cube(Var("T"))>>)
RadEnergy(T) == Prod(<<Fermion(7, 8), Var("g"), Div(Sq(Pi), Num(30)), Pow(T, Num(4))>>)
Rad(q) == CASE q = "density" -> RadDensity
            [] q = "energy_density" -> RadEnergy(Var("T"))
            [] q = "pressure" -> Div(RadEnergy(Var("T")), Num(3))
            [] q = "entropy" -> Div(Mul(Rat(4, 3), RadEnergy(Var("T"))), Var("Ts"))
            [] q = "numerator" -> Num(0)
            [] q = "denominator" -> Div(Mul(Num(4), RadEnergy(Var("aT"))), Var("aT"))      \* d rho / d(aT) in comoving units

(* equilibrium with a mass *)
E == Sqrt(Add(Sq(Var("p")), Sq(Var("M"))))
EqF == Div(Num(1), Add(Exp(Div(E, Var("T"))), Var("eta")))
OverP(body) == Integral("p", body, Num(0), Mul(Num(20), Var("T")))
MidDensity == Mul(G2, OverP(Mul(Sq(Var("p")), EqF)))
MidEnergy == Mul(G2, OverP(Prod(<<Sq(Var("p")), E, EqF>>)))
MidPressure == Mul(G6, OverP(Mul(Div(Pow(Var("p"), Num(4)), E), EqF)))
(* - d f / d E, integrated over comoving momenta with a power of the momentum *)
Ey == Sqrt(Add(Sq(Var("y")), Sq(Mul(Var("M"), Var("a")))))
Peak == Div(Num(1), Mul(Add(Exp(Div(Ey, Var("aT"))), Var("eta")), Add(Num(1), Mul(Var("eta"), Exp(Neg(Div(Ey, Var("aT"))))))))
Moment(k, top) == Mul(G2, Integral("y", Mul(Pow(Var("y"), Num(k)), Peak), Num(0), top))
Mid(q, top) == CASE q = "density" -> MidDensity
            [] q = "energy_density" -> MidEnergy
            [] q = "pressure" -> MidPressure
            [] q = "entropy" -> Div(Add(MidEnergy, MidPressure), Var("Ts"))
            [] q = "numerator" -> Mul(Div(Mul(Sq(Var("M")), Var("x")), Mul(Sq(Var("m")), Var("aT"))), Moment(2, top))
            [] q = "denominator" -> Div(Add(Moment(4, top), Mul(Sq(Mul(Var("M"), Var("a"))), Moment(2, top))), Sq(Var("aT")))

(* non-relativistic: Boltzmann gas *)
Boltzmann == Prod(<<Var("g"), Pow(Div(Mul(Var("M"), Var("T")), Mul(Num(2), Pi)), Rat(3, 2)), Exp(Neg(Div(Var("M"), Var("T"))))>>)
Dust(q, top) == CASE q = "density" -> Boltzmann
            [] q = "energy_density" -> Mul(Add(Var("M"), Mul(Rat(3, 2), Var("T"))), Boltzmann)
            [] q = "pressure" -> Mul(Boltzmann, Var("T"))
            [] q = "entropy" -> Mul(Add(Rat(5, 2), Div(Var("M"), Var("Ts"))), Boltzmann)
            [] OTHER -> Mid(q, top)

(* out of equilibrium: moments of the sampled distribution; f and I are the sampled functions of y *)
OverY(body) == Integral("y", body, Num(0), Var("Y"))
A(k) == Pow(Var("a"), Num(k))
Occupied == Add(Mul(Var("f"), Log(Var("f"))),
                Prod(<<Var("eta"), Sub(Num(1), Mul(Var("eta"), Var("f"))), Log(Sub(Num(1), Mul(Var("eta"), Var("f"))))>>))
Non(q, linear) == CASE q = "density" -> Div(Mul(G2, OverY(Mul(Sq(Var("y")), Var("f")))), A(3))
            [] q = "energy_density" -> Div(Mul(G2, OverY(Prod(<<Sq(Var("y")), Ey, Var("f")>>))), A(4))
            [] q = "pressure" -> Div(Mul(G6, OverY(Mul(Div(Pow(Var("y"), Num(4)), Ey), Var("f")))), A(4))
            [] q = "entropy" -> Neg(Div(Mul(G2, OverY(Mul(Sq(Var("y")), Occupied))), A(3)))
            [] q = "numerator" -> Neg(Mul(G2, OverY(Prod(<<Sq(Var("y")), Ey, IF linear THEN Var("I") ELSE Div(Var("I"), Var("x"))>>))))
            [] q = "denominator" -> Num(0)

Far == Mul(Num(60), Var("aT"))
Value(r, q, laguerre, linear) ==
  LET top == IF laguerre THEN Far ELSE Var("Y") IN
  CASE r = "radiation" -> Rad(q) [] r = "dust" -> Dust(q, top) [] r = "intermediate" -> Mid(q, top) [] OTHER -> Non(q, linear)

VARIABLE case
Init == case \in [regime: Regimes, quantity: Quantities, boson: BOOLEAN, laguerre: BOOLEAN, linear: BOOLEAN]
Next == UNCHANGED case
(* which species feed the temperature equation's two terms at all *)
Couples == /\ case.regime = "radiation" => case.quantity # "numerator" \/ Value("radiation", "numerator", case.laguerre, case.linear) = Num(0)
           /\ case.regime # "non-equilibrium" \/ case.quantity # "numerator" => Value(case.regime, case.quantity, case.laguerre, TRUE) = Value(case.regime, case.quantity, case.laguerre, FALSE)
           /\ case.regime = "non-equilibrium" => case.quantity # "denominator" \/ Value("non-equilibrium", "denominator", case.laguerre, case.linear) = Num(0)
Emit == PrintT("@@" \o ToJson([regime |-> case.regime, quantity |-> case.quantity, boson |-> case.boson, laguerre |-> case.laguerre, linear |-> case.linear,
                               want |-> Value(case.regime, case.quantity, case.laguerre, case.linear)]))
=============================================================================
