--------------------------- MODULE Interpolation ---------------------------
(* The value of a sampled distribution function between, on and above the    *)
(* nodes of its grid, and the polynomial interpolations of tables.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, Terms

CONSTANTS Values        \* node values, hundredths

(* ---- distribution functions.  Grid nodes 0 = p_1 < p_2 < ... are abstract: only which of them surround p matters *)
Energy(p) == Sqrt(Add(Sq(p), Sq(Var("m"))))
P(i) == Var("p" \o ToString(i))
F(i) == Rat(Values[i], 100)
G(i) == Log(Sub(Div(Num(1), F(i)), Var("eta")))
Equilibrium == Div(Num(1), Add(Exp(Div(Energy(Var("p")), Var("T"))), Var("eta")))
(* linear in the conformal energy for log(1/f - eta), which is E/T + const in equilibrium: equilibrium is reproduced exactly *)
Cell(lo) == LET hi == lo + 1
                g == Div(Add(Mul(Sub(Energy(Var("p")), Energy(P(lo))), G(hi)), Mul(Sub(Energy(P(hi)), Energy(Var("p"))), G(lo))),
                         Sub(Energy(P(hi)), Energy(P(lo))))
            IN Div(Num(1), Add(Exp(g), Var("eta")))
BeyondTail(n) == Mul(F(n), Exp(Div(Sub(Energy(P(n)), Energy(Var("p"))), Var("T"))))
Saturated(i, eta) == eta = 1 /\ Values[i] >= 100          \* no fermion occupation above 1 has a logarithm
Value(where, i, n, eta) ==
  CASE where = "equilibrium" -> Equilibrium
    [] where = "node" -> F(i)
    [] where = "above" -> BeyondTail(n)
    [] where = "cell" -> IF Values[i] = 0 \/ Values[i + 1] = 0 \/ Saturated(i, eta) \/ Saturated(i + 1, eta) THEN Num(0) ELSE Cell(i)

(* ---- tables: nodes 1..n at integer positions xs, ordinates ys *)
Lin(xs, ys, i, x) == RDiv(RAdd(RMul(R(ys[i]), RSub(R(xs[i + 1]), x)), RMul(R(ys[i + 1]), RSub(x, R(xs[i])))), R(xs[i + 1] - xs[i]))
CatmullRom(xs, ys, i, x) ==
  LET mu == RDiv(RSub(x, R(xs[i])), R(xs[i + 1] - xs[i]))
      H(a, b, c, d, k) == RNorm(a * ys[i - 1] + b * ys[i] + c * ys[i + 1] + d * ys[i + 2], k)
      a0 == H(0 - 1, 3, 0 - 3, 1, 2)
      a1 == H(2, 0 - 5, 4, 0 - 1, 2)
      a2 == H(0 - 1, 0, 1, 0, 2)
  IN RAdd(RAdd(RMul(a0, RPow(mu, 3)), RMul(a1, RPow(mu, 2))), RAdd(RMul(a2, mu), R(ys[i])))
CellOf(xs, x) == CHOOSE i \in 1..(Len(xs) - 1): RLe(R(xs[i]), x) /\ RLe(x, R(xs[i + 1]))
Linear(xs, ys, x) == IF RLt(R(xs[Len(xs)]), x) THEN R(ys[Len(xs)]) ELSE Lin(xs, ys, CellOf(xs, x), x)
Cubic(xs, ys, x) == IF RLt(R(xs[Len(xs)]), x) THEN R(ys[Len(xs)])
                    ELSE LET i == CellOf(xs, x) IN
                         IF i = 1 \/ i = Len(xs) - 1 THEN Lin(xs, ys, i, x) ELSE CatmullRom(xs, ys, i, x)

Xs == {<<0, 1, 2, 3, 4>>, <<0, 1, 3, 4, 8, 9>>, <<0, 2>>, <<1, 2, 4, 5>>}
Ys(n) == {[i \in 1..n |-> i], [i \in 1..n |-> (0 - 2) * i * i + 3 * i + 5], [i \in 1..n |-> IF i % 2 = 0 THEN 7 ELSE 0 - 3],
          [i \in 1..n |-> IF i = 3 THEN 1 ELSE 0], [i \in 1..n |-> 4]}

VARIABLE case
Init == \/ \E eta \in {1, 0 - 1}, massive \in BOOLEAN:
             \/ \E i \in 1..Len(Values): case = [kind |-> "distribution", where |-> "node", i |-> i, eta |-> eta, massive |-> massive]
             \/ \E i \in 1..(Len(Values) - 1): case = [kind |-> "distribution", where |-> "cell", i |-> i, eta |-> eta, massive |-> massive]
             \/ \E w \in {"above", "equilibrium", "below"}: case = [kind |-> "distribution", where |-> w, i |-> Len(Values), eta |-> eta, massive |-> massive]
        \/ \E xs \in Xs: \E ys \in Ys(Len(xs)), q \in 0..(4 * 10):
             /\ q >= 4 * xs[1]
             /\ case = [kind |-> "table", xs |-> xs, ys |-> ys, x |-> RNorm(q, 4),
                        linear |-> Linear(xs, ys, RNorm(q, 4)), cubic |-> Cubic(xs, ys, RNorm(q, 4))]
Next == UNCHANGED case

Nodes == case.kind = "table" => \A i \in 1..Len(case.xs): case.x = R(case.xs[i]) => case.linear = R(case.ys[i]) /\ case.cubic = R(case.ys[i])
Constant == case.kind = "table" /\ (\A i \in 1..Len(case.xs): case.ys[i] = 4) => case.linear = R(4) /\ case.cubic = R(4)
Bounded == case.kind = "table" =>
  \E i, j \in 1..Len(case.xs): RLe(R(case.ys[i]), case.linear) /\ RLe(case.linear, R(case.ys[j]))
ExactOnLines == case.kind = "table" /\ case.xs = <<0, 1, 2, 3, 4>> /\ case.ys = <<1, 2, 3, 4, 5>> /\ RLe(case.x, R(4)) =>
  case.linear = RAdd(case.x, R(1)) /\ case.cubic = RAdd(case.x, R(1))
ExactOnParabolas == case.kind = "table" /\ case.xs = <<0, 1, 2, 3, 4>> /\ case.ys = [i \in 1..5 |-> (0 - 2) * i * i + 3 * i + 5]
                    /\ RLe(R(1), case.x) /\ RLe(case.x, R(3)) =>
  LET i == RAdd(case.x, R(1)) IN case.cubic = RAdd(RAdd(RMul(R(0 - 2), RMul(i, i)), RMul(R(3), i)), R(5))
Emit == PrintT("@@" \o IF case.kind = "table" THEN ToJson(case)
               ELSE IF case.where = "below" THEN ToJson([kind |-> "distribution", where |-> "below", i |-> 1, eta |-> case.eta, massive |-> case.massive])
               ELSE ToJson([kind |-> "distribution", where |-> case.where, i |-> case.i, eta |-> case.eta, massive |-> case.massive,
                            want |-> Value(case.where, case.i, Len(Values), case.eta)]))
=============================================================================
