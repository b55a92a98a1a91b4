------------------------------- MODULE Advance -------------------------------
(* What one step does to the recorded history of a universe: the row added   *)
(* as a function of the previous rows and of this step's derivative.         *)
(* Names: f1..fk recorded derivatives (oldest first) with fk the current     *)
(* one, aT0, x0, a0, t0: the previous row, dx, h, m: step and normalisation, *)
(* rho, S: totals of the species, Mp: Planck mass.                           *)
EXTENDS Integers, Sequences, TLC, Json, Terms, Multistep

CONSTANTS MaxRows
Used(rows) == IF rows + 1 < MaxOrder THEN rows + 1 ELSE MaxOrder        \* rows: rows recorded before the step
F(i) == Var("f" \o ToString(i))                                        \* i-th newest of the used values is f_(k)
Increment(rows, multistep) ==
  IF ~multistep THEN Mul(F(Used(rows)), Var("h"))
  ELSE LET k == Used(rows) IN Mul(Var("h"), Sum([i \in 1..k |-> Mul(Rat(AB[k][i][1], AB[k][i][2]), F(i))]))
AT(rows, ms) == Add(Var("aT0"), Increment(rows, ms))
X(log) == Add(Var("x0"), IF log THEN Mul(Var("x0"), Var("dy")) ELSE Var("dx"))
A(log) == Div(X(log), Var("m"))
Hub == Div(Sqrt(Prod(<<Rat(8, 3), Pi, Var("rho")>>)), Var("Mp"))
Time(log) == Add(Var("t0"), Div(Sub(Num(1), Div(Var("a0"), A(log))), Hub))
Rhs(log) == IF log THEN Div(Mul(Var("x0"), Var("num")), Var("den")) ELSE Div(Var("num"), Var("den"))

VARIABLE case
Init == case \in [rows: 1..MaxRows, log: BOOLEAN, multistep: BOOLEAN]
Next == UNCHANGED case
(* a constant derivative advances aT by derivative times step, whatever the order *)
Consistent == LET k == Used(case.rows) IN RSumF(AB[k], k) = R(1)
Bounded == Used(case.rows) \in 1..MaxOrder /\ Used(case.rows) <= case.rows + 1
Emit == PrintT("@@" \o ToJson([rows |-> case.rows, log |-> case.log, multistep |-> case.multistep, used |-> Used(case.rows),
           fraction |-> Rhs(case.log), aT |-> AT(case.rows, case.multistep), x |-> X(case.log), a |-> A(case.log),
           T |-> Div(AT(case.rows, case.multistep), A(case.log)), t |-> Time(case.log)]))
=============================================================================
