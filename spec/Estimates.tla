------------------------------ MODULE Estimates ------------------------------
(* The semi-analytic estimate of the helium abundance: a monitor that looks  *)
(* at a run before every step.  It remembers the state in which neutrons     *)
(* stopped being converted, the first state cold enough for deuterium, and   *)
(* once both are known estimates the helium fraction, once.                  *)
EXTENDS Integers, Sequences, TLC, Json, Rationals, Terms

CONSTANTS MaxSteps
VARIABLES t, warm, rate, ndec, deut, est, hist
vars == <<t, warm, rate, ndec, deut, est, hist>>

(* rows of rates: three of neutrons and three of protons, alternating *)
Rates == {<<1, 1, 1, 1, 1, 1>>, <<10, 1, 0, 0, 0, 0>>, <<10, 1, 1, 0, 0, 0>>, <<1, 10, 0, 0, 0, 0>>, <<0, 5, 1, 5, 0, 1>>, <<4, 0, 0, 1, 7, 0>>, <<3, 0, 9, 0, 0, 1>>, <<1, 0, 1, 0, 1, 0>>, <<1, 100, 100, 1, 1, 1>>}
Neutrons(r) == r[1] + r[3] + r[5]
Protons(r) == r[2] + r[4] + r[6]
(* equilibrium is lost when one direction is more than ten times faster than the other *)
Lost(r) == Neutrons(r) > 10 * Protons(r) \/ Protons(r) > 10 * Neutrons(r)
None == 0 - 1
NoRow == <<>>
Init == t = 0 /\ warm = 3 /\ rate = NoRow /\ ndec = None /\ deut = None /\ est = None /\ hist = <<>>
(* warm: 3 above the temperature of nucleosynthesis (no rates yet), 2 above that of deuterium, 1 exactly there, 0 below *)
Look == /\ ndec' = IF ndec = None /\ rate # NoRow /\ Lost(rate) THEN t ELSE ndec
        /\ deut' = IF deut = None /\ warm <= 1 THEN t ELSE deut
        /\ est' = IF est = None /\ ndec' # None /\ deut' # None THEN t ELSE est
Evolve == /\ t' = t + 1
          /\ warm' \in {w \in 0..3: w <= warm}
          /\ rate' \in IF warm' = 3 THEN {NoRow} ELSE IF ndec' = None THEN Rates ELSE {<<1, 1, 1, 1, 1, 1>>, <<1, 0, 1, 0, 1, 0>>}
Next == t < MaxSteps /\ Look /\ Evolve /\ hist' = Append(hist, [t |-> t, warm |-> warm, rate |-> rate, ndec |-> ndec', deut |-> deut', est |-> est'])
Spec == Init /\ [][Next]_vars
(* laws *)
Once == [][(ndec # None => ndec' = ndec) /\ (deut # None => deut' = deut) /\ (est # None => est' = est)]_vars
Both == est # None => (ndec # None /\ deut # None /\ est = (IF ndec > deut THEN ndec ELSE deut))
First == \A i \in DOMAIN hist: (deut # None /\ hist[i].t < deut) => hist[i].warm > 1
FirstN == \A i \in DOMAIN hist: (ndec # None /\ hist[i].t < ndec) => (hist[i].rate = NoRow \/ ~Lost(hist[i].rate))
(* the estimates: neutrons freeze in with the Boltzmann factor and decay until deuterium forms; all that are left end in helium *)
Time == Sub(Var("td"), Var("tn"))
Ratio == Mul(Exp(Div(Neg(Var("q")), Var("Tn"))), Exp(Div(Neg(Time), Var("tau"))))
Helium == Div(Mul(Num(2), Var("ratio")), Add(Num(1), Var("ratio")))
(* helium in rationals: with n neutrons and p protons, n <= p, two of each per nucleus: mass fraction 2n / (n + p) *)
Y(n, p) == RDiv(RMul(R(2), RNorm(n, p)), RAdd(R(1), RNorm(n, p)))
Mass == \A n \in 0..6, p \in 1..7: n <= p => (Y(n, p) = RNorm(2 * n, n + p) /\ RLe(Y(n, p), R(1)))
Emit == (t = MaxSteps) => PrintT("@@" \o ToJson([hist |-> hist]))
EmitStatic == (t = 0) => PrintT("@@" \o ToJson([time |-> Time, ratio |-> Ratio, helium |-> Helium]))
=============================================================================
