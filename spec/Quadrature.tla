----------------------------- MODULE Quadrature -----------------------------
(* What the quadrature rules must return on polynomials, exactly: the value  *)
(* of the integral.  Polynomials are coefficient sequences (constant first). *)
EXTENDS Integers, Sequences, TLC, Json, Rationals

CONSTANTS MaxDegree, MaxDegree2

PEval(p, x) == RSumF([i \in 1..Len(p) |-> RMul(p[i], RPow(x, i - 1))], Len(p))
PCoef(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE R(0)
PAdd(p, q) == TLCEval([i \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> RAdd(PCoef(p, i), PCoef(q, i))])
PScale(c, p) == TLCEval([i \in 1..Len(p) |-> RMul(c, p[i])])
PMul(p, q) == TLCEval([n \in 1..(Len(p) + Len(q) - 1) |->
                 RSumF([i \in 1..n |-> RMul(PCoef(p, i), PCoef(q, n - i + 1))], n)])
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN <<R(1)>> ELSE PMul(p, PPow(p, k - 1))
PPrim(p) == TLCEval(<<R(0)>> \o [i \in 1..Len(p) |-> RDiv(p[i], R(i))])
PInt(p, a, b) == RSub(PEval(PPrim(p), b), PEval(PPrim(p), a))
Mono(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN R(1) ELSE R(0)]

(* iterated integral of x^i y^j over a <= x <= b, g(x) <= y <= h(x) *)
Iterated(i, j, a, b, g, h) ==
  LET inner == PScale(<<1, j + 1>>, PAdd(PPow(h, j + 1), PScale(R(0 - 1), PPow(g, j + 1))))
  IN PInt(PMul(Mono(i), inner), a, b)

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

Intervals == {<<R(0 - 1), R(1)>>, <<R(0), R(1)>>, <<R(0), R(3)>>, <<R(2), R(0 - 1)>>, <<R(1), R(1)>>, <<<<1, 2>>, <<3, 2>>>>}
Lines == {<<R(0), R(1)>>, <<R(1)>>, <<R(0 - 1), <<1, 2>>>>, <<R(2), R(0 - 1)>>}

VARIABLE case
Init == \/ \E k \in 0..MaxDegree, i \in Intervals:
             case = [rule |-> "1d", deg |-> k, a |-> i[1], b |-> i[2], want |-> PInt(Mono(k), i[1], i[2])]
        \/ \E i \in 0..MaxDegree2, j \in 0..MaxDegree2, x \in {<<R(0), R(1)>>, <<R(0 - 1), R(2)>>}, g \in Lines, h \in Lines:
             /\ g # h
             /\ case = [rule |-> "2d", i |-> i, j |-> j, a |-> x[1], b |-> x[2], g |-> g, h |-> h,
                        want |-> Iterated(i, j, x[1], x[2], g, h)]
        \/ \E k \in 0..9: case = [rule |-> "laguerre", deg |-> k, want |-> R(Fact(k))]
        \/ \E k \in 0..3, n \in {3, 5, 9}, i \in Intervals:
             /\ i[1] # i[2]
             /\ case = [rule |-> "simpson", deg |-> k, n |-> n, a |-> i[1], b |-> i[2], want |-> PInt(Mono(k), i[1], i[2])]
        \/ \E n \in {1, 2, 3, 6}: \E k \in 0..(2 * n - 1):
             case = [rule |-> "order", n |-> n, deg |-> k, a |-> R(0), b |-> R(2), want |-> PInt(Mono(k), R(0), R(2))]
        \/ \E n \in {1, 2, 3, 5}: \E k \in 0..(2 * n - 1):
             case = [rule |-> "laguerre order", n |-> n, deg |-> k, want |-> R(Fact(k))]
        (* the hat max(0, w - |x - c|), which no fixed order integrates exactly but the adaptive rule does, whatever the size 10^-k of its values *)
        \/ \E c \in {<<1, 2>>, <<13, 10>>, <<17, 10>>}, w \in {<<1, 4>>, <<3, 10>>, <<1, 2>>}, k \in {0, 6, 9, 17, 30}, i \in {<<R(0), R(3)>>, <<R(3), R(0)>>}:
             case = [rule |-> "hat", c |-> c, w |-> w, k |-> k, a |-> i[1], b |-> i[2], want |-> RMul(IF i[1] = R(0) THEN R(1) ELSE R(0 - 1), RMul(w, w))]
Next == UNCHANGED case

(* laws of the integral, checked on the specification's own values *)
Orientation == case.rule = "1d" => PInt(Mono(case.deg), case.b, case.a) = RNeg(case.want)
Degenerate == case.rule = "1d" /\ case.a = case.b => case.want = R(0)
Additive == case.rule = "1d" => RAdd(PInt(Mono(case.deg), case.a, R(1)), PInt(Mono(case.deg), R(1), case.b)) = case.want
Antisymmetric == case.rule = "2d" => Iterated(case.i, case.j, case.a, case.b, case.h, case.g) = RNeg(case.want)
HatInside == case.rule = "hat" => (RLe(R(0), RSub(case.c, case.w)) /\ RLe(RAdd(case.c, case.w), R(3)))
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
