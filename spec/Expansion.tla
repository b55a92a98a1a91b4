------------------------------ MODULE Expansion ------------------------------
(* The cosmological clock: scale factor, temperature, Hubble rate, time.      *)
(* Exact quantities (a, x, T, aT) are rationals; H, N_eff and the elapsed     *)
(* time contain square roots and are stated as terms.                         *)
EXTENDS Integers, Sequences, TLC, Json, Rationals, Terms

CONSTANTS MaxSteps

VARIABLES log,       \* logarithmic step variable?
          m,         \* normalisation of the conformal scale factor
          dy, dx,    \* step sizes (dy only in the logarithmic case)
          a, x, aT, T, aIni, TPrev, aPrev,
          hist
vars == <<log, m, dy, dx, a, x, aT, T, aIni, TPrev, aPrev, hist>>

Init == /\ log \in BOOLEAN
        /\ m \in {R(1), R(2)}
        /\ T \in {R(10), R(3), <<1, 2>>}
        /\ dy \in IF log THEN {<<1, 10>>, <<1, 2>>} ELSE {R(0)}
        /\ a = RDiv(m, T)                     \* the initial scale factor makes aT = m
        /\ aIni = a
        /\ x = RMul(a, m)
        /\ aT = RMul(a, T)
        /\ dx \in IF log THEN {RMul(x, dy)} ELSE {<<1, 20>>, <<1, 4>>}
        /\ TPrev = T /\ aPrev = a
        /\ hist = <<>>

(* one step of the evolution: the step in x, the change of aT found by the temperature equation, *)
(* then the bookkeeping of the new density and entropy                                           *)
(* `stride' is the part of the step actually made before the bookkeeping: 1 in the evolution loop, *)
(* but the clock must stay consistent when x was moved by anything else (QCD transition, restarts)  *)
Step(daT, rho, S, stride) ==
  LET x1 == RAdd(x, RMul(dx, stride))
      aT1 == RAdd(aT, RMul(aT, daT))
  IN /\ x' = x1
     /\ aT' = aT1
     /\ a' = RDiv(x1, m)
     /\ T' = RDiv(aT1, RDiv(x1, m))
     /\ dx' = IF log THEN RMul(x1, dy) ELSE dx
     /\ TPrev' = T /\ aPrev' = a
     /\ hist' = Append(hist, [daT |-> daT, stride |-> stride, rho |-> rho, S |-> S,
                              x |-> x', aT |-> aT', a |-> a', T |-> T', dx |-> dx', T0 |-> T, a0 |-> a])
     /\ UNCHANGED <<log, m, dy, aIni>>

Next == /\ Len(hist) < MaxSteps
        /\ \E daT \in {R(0), <<1, 20>>, <<0 - 1, 50>>}, rho \in {1, 700}, S \in {3},
              stride \in IF hist = <<>> THEN {R(1), R(3)} ELSE {R(1), <<1, 2>>}: Step(daT, rho, S, stride)

TypeOK == \A q \in {a, x, aT, T}: q[2] > 0
Conformal == /\ RMul(a, T) = aT               \* a T is the conformal temperature
             /\ RMul(a, m) = x                \* x = a m
InitialNormalisation == hist = <<>> => aT = m
Expanding == hist # <<>> => RLt(aPrev, a)     \* the scale factor only grows, so time only advances
PositiveT == RLt(R(0), T)
StepFollows == log => dx = RMul(x, dy)

(* terms over the observed state *)
Hubble == Div(Sqrt(Prod(<<Rat(8, 3), Pi, Var("rho")>>)), Var("M_p"))
Neff == Div(Sub(Var("rho"), Prod(<<Div(Sq(Pi), Num(15)), Pow(Var("T0"), Num(4))>>)),
            Prod(<<Rat(7, 8), Div(Sq(Pi), Num(15)), Pow(Div(Var("T0"), Dec("1.401")), Num(4))>>))
Elapsed == Div(Sub(Num(1), Div(Var("a0"), Var("a"))), Hubble)
Age == Sqrt(Div(Num(3), Prod(<<Num(32), Pi, Var("G"), Var("rho")>>)))

Emit == /\ (hist = <<>> => PrintT("@@" \o ToJson([init |-> [log |-> log, m |-> m, dy |-> dy, dx |-> dx, a |-> a, x |-> x, aT |-> aT, T |-> T]])))
        /\ (Len(hist) = MaxSteps => PrintT("@@" \o ToJson(
              [log |-> log, m |-> m, dy |-> dy, dx |-> dx, aIni |-> aIni, hist |-> hist])))
EmitTerms == (hist = <<>> /\ log /\ m = R(1) /\ T = R(3) /\ dy = <<1, 2>>) =>
    PrintT("@@" \o ToJson([H |-> Hubble, N_eff |-> Neff, dt |-> Elapsed, age |-> Age]))
=============================================================================
