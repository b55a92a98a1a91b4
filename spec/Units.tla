-------------------------------- MODULE Units --------------------------------
(* Natural units: hbar = c = k_B = 1, so that every unit is a power of the   *)
(* electronvolt, fixed by its dimensions and by the values of hbar, c, e and *)
(* k_B in SI.  Nothing a run computes may depend on the size chosen for the  *)
(* electronvolt other than by the power of energy it is measured in.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

VARIABLES scale, seen
vars == <<scale, seen>>

(* dimensions: mass, length, time, temperature *)
D(m, l, t, k) == [m |-> m, l |-> l, t |-> t, k |-> k]
Energy(d) == d.m - d.l - d.t + d.k                        \* power of energy
DMul(a, b) == D(a.m + b.m, a.l + b.l, a.t + b.t, a.k + b.k)
RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 0 THEN D(0, 0, 0, 0) ELSE IF n < 0 THEN DMul(D(0 - a.m, 0 - a.l, 0 - a.t, 0 - a.k), DPow(a, n + 1)) ELSE DMul(a, DPow(a, n - 1))
Mass == D(1, 0, 0, 0)
Length == D(0, 1, 0, 0)
Time == D(0, 0, 1, 0)
Temp == D(0, 0, 0, 1)
EnergyD == DMul(Mass, DPow(DMul(Length, DPow(Time, 0 - 1)), 2))

(* SI: exact by definition, hbar rounded *)
C == Dec("299792458")
Hbar == Dec("1.054571817e-34")
Qe == Dec("1.602176634e-19")
Kb == Dec("1.380649e-23")
InEV(d, si) == \* value in powers of eV of a quantity of dimension d whose SI value is the term si: one SI unit of each base dimension
  LET kg == Div(Sq(C), Qe)
      s == Div(Qe, Hbar)
      m == Div(Div(Qe, Hbar), C)
      K == Div(Kb, Qe)
  IN Prod(<<si, Pow(kg, Num(d.m)), Pow(m, Num(d.l)), Pow(s, Num(d.t)), Pow(K, Num(d.k))>>)
Unit(name, d, si) == [name |-> name, dim |-> Energy(d), eV |-> InEV(d, si)]
Units == {Unit("eV", EnergyD, Qe), Unit("keV", EnergyD, Mul(Qe, Dec("1e3"))), Unit("MeV", EnergyD, Mul(Qe, Dec("1e6"))), Unit("GeV", EnergyD, Mul(Qe, Dec("1e9"))),
          Unit("TeV", EnergyD, Mul(Qe, Dec("1e12"))), Unit("s", Time, Num(1)), Unit("m", Length, Num(1)), Unit("kg", Mass, Num(1)),
          Unit("N", DMul(DMul(Mass, Length), DPow(Time, 0 - 2)), Num(1)), Unit("K9", Temp, Dec("1e9")),
          Unit("g_cm3", DMul(Mass, DPow(Length, 0 - 3)), Dec("1e3"))}
(* constants: value, in the unit given (power of eV), to the relative accuracy `tol` *)
Const(name, dim, value, tol) == [name |-> name, dim |-> dim, eV |-> value, tol |-> tol]
GeV(n) == Pow(Dec("1e9"), Num(n))
GNewton == InEV(DMul(DMul(DPow(Length, 3), DPow(Mass, 0 - 1)), DPow(Time, 0 - 2)), Dec("6.6743e-11"))
Consts == {Const("G", Energy(DMul(DMul(DPow(Length, 3), DPow(Mass, 0 - 1)), DPow(Time, 0 - 2))), GNewton, "1e-3"),
           Const("M_p", 1, Div(Num(1), Sqrt(GNewton)), "1e-3"),
           Const("G_F", 0 - 2, Div(Dec("1.1663788e-5"), GeV(2)), "2e-3"),
           Const("H", 1, InEV(DPow(Time, 0 - 1), Dec("2.2e-18")), "3e-2"),
           Const("sin_theta_w_2", 0, Dec("0.2312"), "1e-3"), Const("g_R", 0, Var("sin_theta_w_2"), "1e-12"), Const("g_L", 0, Add(Var("sin_theta_w_2"), Rat(1, 2)), "1e-12"),
           Const("f_K", 1, Mul(Dec("0.1556"), GeV(1)), "1e-2"), Const("f_eta_c", 1, Mul(Dec("0.335"), GeV(1)), "2e-2"), Const("f_D", 1, Mul(Dec("0.212"), GeV(1)), "1e-2"),
           Const("f_Ds", 1, Mul(Dec("0.249"), GeV(1)), "1e-2"), Const("f_Ds_star", 1, Mul(Dec("0.315"), GeV(1)), "2e-2"),
           Const("eta", 0, Dec("6.1e-10"), "1e-2"), Const("alpha", 0, Div(Num(1), Dec("137.036")), "1e-5"), Const("lambda_QCD", 1, Mul(Dec("0.15"), GeV(1)), "1e-9"),
           Const("M_W", 1, Mul(Dec("80.379"), GeV(1)), "1e-3"), Const("delta_m12_sq", 2, Dec("7.4e-5"), "3e-2"), Const("delta_m13_sq", 2, Dec("2.5e-3"), "4e-2"),
           Const("rate_normalization", 0 - 5, Mul(Dec("17.54"), Pow(Dec("1e6"), Num(0 - 5))), "1e-2"),
           Const("MSW_constant", 0 - 4, Div(Prod(<<Num(16), Dec("1.2020569"), Sqrt(Num(2)), Var("G_F")>>), Mul(Pi, Sq(Var("M_W")))), "1e-3")}
(* what a run computes, by its power of energy *)
Observables == [T |-> 1, aT |-> 1, x |-> 1, a |-> 0, t |-> 0 - 1, H |-> 1, rho |-> 4, S |-> 3, N_eff |-> 0, fraction_log |-> 1, fraction_lin |-> 0, step_log |-> 0, step_lin |-> 1,
                density |-> 3, energy_density |-> 4, pressure |-> 4, entropy |-> 3, numerator |-> 3, denominator |-> 3, occupation |-> 0, momentum |-> 1, mass |-> 1, lifetime |-> 0 - 1,
                rate |-> 0, collision_log |-> 0, collision_lin |-> 0 - 1, oscillation |-> 0, amplitude4 |-> 0 - 4, K2 |-> 0 - 4, amplitude4c |-> 0, amplitude3 |-> 2, temperature |-> 1, samples |-> 0,
                force |-> 2, newton |-> 0 - 2, normalization |-> 0 - 5]
(* the unit may be changed any number of times *)
Init == scale = 0 /\ seen = {0}
Next == \E k \in {0 - 20, 10, 1}: Cardinality(seen) < 4 /\ scale' = scale + k /\ scale' # 0 /\ scale' \notin seen /\ seen' = seen \cup {scale'}
Spec == Init /\ [][Next]_vars
(* laws *)
Exponent(name) == Observables[name] * scale
Additive == Exponent("rho") = Exponent("T") * 4 /\ Exponent("pressure") = Exponent("energy_density") /\ Exponent("H") = 0 - Exponent("t")
            /\ Exponent("energy_density") = Exponent("density") + Exponent("mass") /\ Exponent("collision_log") = Exponent("collision_lin") + Exponent("step_lin")
            /\ Exponent("numerator") + Exponent("x") = Exponent("denominator") + Exponent("aT") /\ Exponent("amplitude4") + 4 * Exponent("momentum") = Exponent("amplitude4c")
            /\ Exponent("S") = 3 * Exponent("T")
Newton == Energy(DMul(DMul(Mass, Length), DPow(Time, 0 - 2))) = 2 /\ Energy(EnergyD) = 1 /\ Energy(DMul(Length, DPow(Time, 0 - 1))) = 0
Emit == PrintT("@@" \o ToJson([scale |-> scale, exponents |-> [n \in DOMAIN Observables |-> Exponent(n)]]))
EmitStatic == scale = 0 => PrintT("@@" \o ToJson([units |-> Units, consts |-> Consts, dims |-> Observables]))
=============================================================================
