------------------------------- MODULE Grids -------------------------------
(* Momentum grids and the search for the cell that contains a momentum.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, Terms

CONSTANTS K, Samples, Base     \* nodes of the abstract grids lie in 0..K; Base: growth factor of the logarithmic grid

(* ---- abstract sorted grids and the bracket of a point (coordinates doubled, so that odd numbers lie between nodes) *)
SortedSeqs == {S \in SUBSET (0..K): S # {}}
Rank(S, v) == Cardinality({u \in S: u < v})          \* 0-based position of node v
Max(S) == CHOOSE v \in S: \A u \in S: u <= v
Min(S) == CHOOSE v \in S: \A u \in S: u >= v
Bracket(S, x2) ==                                     \* x2 = 2x
  IF x2 > 2 * Max(S) THEN <<Cardinality(S) - 1, 0 - 1>>
  ELSE IF x2 < 2 * Min(S) THEN <<0 - 1, 0>>
  ELSE IF x2 % 2 = 0 /\ (x2 \div 2) \in S THEN <<Rank(S, x2 \div 2), Rank(S, x2 \div 2)>>
  ELSE LET lo == CHOOSE v \in S: 2 * v < x2 /\ \A u \in S: 2 * u < x2 => u <= v
       IN <<Rank(S, lo), Rank(S, lo) + 1>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})

(* ---- the templates, as a fraction of the maximal momentum *)
LinearF(n, i) == RNorm(i - 1, n - 1)
LogF(n, i) == RDiv(RSub(RPow(Base, i - 1), R(1)), RSub(RPow(Base, n - 1), R(1)))
LinearT(n, i) == Mul(Var("max"), Rat(i - 1, n - 1))
BaseT == Rat(Base[1], Base[2])
LogT(n, i) == Mul(Var("max"), Div(Sub(Pow(BaseT, Num(i - 1)), Num(1)), Sub(Pow(BaseT, Num(n - 1)), Num(1))))

(* ---- the grid for decay products of a particle of mass M, lifetime tau: nodes go down from the largest momentum,
        every step is sqrt(M T / c) a with a = aT / T the scale factor at which decay products reach that momentum *)
AMax == Sqrt(Prod(<<Num(2), Div(Rat(1, 2), Var("s")), Var("b"), Var("tau")>>))
Top == Mul(AMax, Add(Var("M"), Sqrt(Mul(Var("M"), Div(Var("aT"), AMax)))))
C2 == Sq(Var("c"))
StepT == Div(Prod(<<Var("aT"), Var("M"),
                 Sub(Add(Var("aT"), Mul(Var("g"), C2)),
                     Sqrt(Mul(Var("aT"), Add(Var("aT"), Prod(<<Num(2), Var("g"), C2>>)))))>>),
             Prod(<<Num(2), Sq(Var("g")), C2>>))
Down == Max2(Sub(Var("g"), Div(Mul(Sqrt(Div(Mul(Var("M"), StepT), Var("c"))), Var("aT")), StepT)), Num(0))

VARIABLE case
Init == \/ \E S \in SortedSeqs, x2 \in (0 - 1)..(2 * K + 1): case = [kind |-> "bracket", nodes |-> S, x2 |-> x2]
        \/ \E n \in Samples, k \in {"linear", "log"}: case = [kind |-> k, n |-> n]
        \/ case = [kind |-> "heuristic"]
Next == UNCHANGED case

Contains == case.kind = "bracket" =>
  LET g == Sorted(case.nodes)
      b == Bracket(case.nodes, case.x2)
      At(i) == 2 * g[i + 1]
  IN /\ b[1] \in (0 - 1)..(Len(g) - 1) /\ b[2] \in (0 - 1)..(Len(g) - 1)
     /\ b[1] # 0 - 1 \/ b[2] # 0 - 1
     /\ b[1] >= 0 => At(b[1]) <= case.x2
     /\ b[2] >= 0 => At(b[2]) >= case.x2
     /\ b[1] >= 0 /\ b[2] >= 0 => b[2] - b[1] \in {0, 1} /\ (b[1] = b[2] <=> At(b[1]) = case.x2)
Increasing ==
  /\ case.kind = "linear" => \A i \in 1..(case.n - 1): RLt(LinearF(case.n, i), LinearF(case.n, i + 1))
  /\ case.kind = "log" /\ case.n <= 6 =>
        /\ \A i \in 1..(case.n - 1): RLt(LogF(case.n, i), LogF(case.n, i + 1))
        /\ \A i \in 1..(case.n - 2): RDiv(RSub(LogF(case.n, i + 2), LogF(case.n, i + 1)),
                                          RSub(LogF(case.n, i + 1), LogF(case.n, i))) = Base
Ends == /\ case.kind = "linear" => LinearF(case.n, 1) = R(0) /\ LinearF(case.n, case.n) = R(1)
        /\ case.kind = "log" /\ case.n <= 6 => LogF(case.n, 1) = R(0) /\ LogF(case.n, case.n) = R(1)

Emit ==
  PrintT("@@" \o
    CASE case.kind = "bracket" -> ToJson([kind |-> "bracket", grid |-> Sorted(case.nodes), x2 |-> case.x2,
                                          want |-> Bracket(case.nodes, case.x2)])
      [] case.kind = "linear" -> ToJson([kind |-> "linear", n |-> case.n, points |-> [i \in 1..case.n |-> LinearT(case.n, i)]])
      [] case.kind = "log" -> ToJson([kind |-> "log", n |-> case.n, points |-> [i \in 1..case.n |-> LogT(case.n, i)]])
      [] OTHER -> ToJson([kind |-> "heuristic", top |-> Top, down |-> Down]))
=============================================================================
