------------------------------ MODULE DKernels ------------------------------
(* The angular kernels of the four-particle collision integral.                *)
(* For momenta q1..q4 the definitions are                                       *)
(*   D1 = 4/pi  Int dl/l^2  S1 S2 S3 S4                 S = sin(q l)             *)
(*   D2 = 4/pi  Int dl/l^2  S1 S2 (q3 C3)(q4 C4)        C = cos(q l) - sin(q l)/(q l) *)
(*   D3 = 4/pi  Int dl/l^2  (q1 C1)(q2 C2)(q3 C3)(q4 C4)                         *)
(* A product of four sines is a signed sum of cosines of k = q1 +- q2 +- q3 +- q4 *)
(* and Int dl cos(k l)/l^2n = (-1)^n pi |k|^(2n-1) / (2 (2n-1)!), so that, with   *)
(* (q d/dq - 1) turning S/l into q C, everything is an exact signed sum over      *)
(* 8 sign choices.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals

CONSTANT Q            \* largest momentum
VARIABLES case, full

Signs == {s \in [1..4 -> {1, 0 - 1}]: s[1] = 1}
Sig(s) == s[2] * s[3] * s[4]
Kap(q, s) == q[1] + s[2] * q[2] + s[3] * q[3] + s[4] * q[4]
A(x) == IF x < 0 THEN 0 - x ELSE x
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
Odd(x, n) == IF n % 2 = 1 THEN A(x)^n ELSE Sg(x) * A(x)^n     \* d-th derivatives of |k|^odd
RECURSIVE SumS(_, _)
SumS(F(_), S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S: TRUE IN F(s) + SumS(F, S \ {s})

(* integers: 4 D1, 24 D2, -480 D3 *)
D1x4(q) == 0 - SumS(LAMBDA s: Sig(s) * A(Kap(q, s)), Signs)
D2x24(q) == SumS(LAMBDA s: LET k == Kap(q, s) IN
     Sig(s) * (6 * q[3] * q[4] * s[3] * s[4] * A(k) - 3 * (q[3] * s[3] + q[4] * s[4]) * k * A(k) + A(k)^3), Signs)
E1(q, s) == SumS(LAMBDA i: q[i] * s[i], 1..4)
E2(q, s) == SumS(LAMBDA p: q[p[1]] * s[p[1]] * q[p[2]] * s[p[2]], {p \in (1..4) \X (1..4): p[1] < p[2]})
E3(q, s) == SumS(LAMBDA i: LET r == (1..4) \ {i} IN
                           (LET a == CHOOSE x \in r: TRUE
                                b == CHOOSE x \in r \ {a}: TRUE
                                c == CHOOSE x \in r \ {a, b}: TRUE
                            IN q[a] * s[a] * q[b] * s[b] * q[c] * s[c]), 1..4)
E4(q, s) == q[1] * s[1] * q[2] * s[2] * q[3] * s[3] * q[4] * s[4]
D3xm480(q) == SumS(LAMBDA s: LET k == Kap(q, s) IN
     Sig(s) * (A(k)^5 - 5 * E1(q, s) * k * A(k)^3 + 20 * E2(q, s) * A(k)^3 - 60 * E3(q, s) * k * A(k) + 120 * E4(q, s) * A(k)), Signs)

D1(q) == RNorm(D1x4(q), 4)
D2(q) == RNorm(D2x24(q), 24)
D3(q) == RNorm(0 - D3xm480(q), 480)

(* derivatives with respect to the first momentum at zero: the kernels per unit momentum of a particle at rest *)
Z(q) == <<0, q[2], q[3], q[4]>>
Db1x4(q) == 0 - SumS(LAMBDA s: Sig(s) * Sg(Kap(Z(q), s)), Signs)
Db2x24(q) == SumS(LAMBDA s: LET k == Kap(Z(q), s) IN
     Sig(s) * (6 * q[3] * q[4] * s[3] * s[4] * Sg(k) - 6 * (q[3] * s[3] + q[4] * s[4]) * A(k) + 3 * k * A(k)), Signs)
Db1(q) == RNorm(Db1x4(q), 4)
Db2(q) == RNorm(Db2x24(q), 24)

(* can four vectors of these lengths close? (no length exceeds the sum of the others) *)
Tot(q) == q[1] + q[2] + q[3] + q[4]
Closes(q) == \A i \in 1..4: 2 * q[i] <= Tot(q)
Inside(q) == \A i \in 1..4: q[i] > 0 /\ 2 * q[i] < Tot(q)
Triangle(q) == 2 * q[2] < Tot(Z(q)) /\ 2 * q[3] < Tot(Z(q)) /\ 2 * q[4] < Tot(Z(q))
Outside(q) == ~Closes(q)
OutTri(q) == \E i \in 2..4: 2 * q[i] > Tot(Z(q))

Perms == {p \in [1..4 -> 1..4]: Cardinality({p[i]: i \in 1..4}) = 4}
P(q, p) == [i \in 1..4 |-> q[p[i]]]

Init == case \in [1..4 -> 0..Q] /\ full = <<>>
Next == UNCHANGED <<case, full>>

Symmetric == \A p \in Perms: D1(P(case, p)) = D1(case) /\ D3(P(case, p)) = D3(case)
PairSymmetric == LET q == case IN /\ D2(<<q[2], q[1], q[3], q[4]>>) = D2(q)
                                  /\ D2(<<q[1], q[2], q[4], q[3]>>) = D2(q)
Support == /\ Outside(case) => D1(case) = R(0) /\ D2(case) = R(0) /\ D3(case) = R(0)
           /\ Inside(case) => RLt(R(0), D1(case))
           /\ OutTri(case) => Db1(case) = R(0) /\ Db2(case) = R(0)
           /\ Triangle(case) => Db1(case) = R(1)
Vanish == case[1] = 0 => D1(case) = R(0) /\ D2(case) = R(0) /\ D3(case) = R(0)
Emit == PrintT("@@" \o ToJson([q |-> case, d1 |-> D1(case), d2 |-> D2(case), d3 |-> D3(case),
          rest |-> IF Triangle(case) \/ OutTri(case) THEN <<Db1(case), Db2(case)>> ELSE <<>>]))

-----------------------------------------------------------------------------
(* the angular integral of  K1 (p_i.p_j)(p_k.p_l) + K2 m_i m_j (p_k.p_l)      *)
(* a four-product of the momenta of two particles is E E' - p.p', with the sign *)
(* of the side it enters with                                                  *)
Orders == {o \in [1..4 -> 1..4]: Cardinality({o[i]: i \in 1..4}) = 4}
Masses == {<<1, 2, 3, 2>>, <<0, 0, 1, 1>>, <<3, 1, 0, 2>>}
Energies == {<<5, 4, 6, 7>>}
Moms == {<<2, 3, 4, 2>>, <<3, 1, 2, 5>>, <<1, 1, 1, 1>>, <<4, 2, 5, 2>>}
SideSets == {<<0 - 1, 0 - 1, 1, 1>>, <<0 - 1, 1, 1, 1>>, <<0 - 1, 0 - 1, 0 - 1, 1>>, <<0 - 1, 1, 0 - 1, 1>>, <<0 - 1, 1, 1, 0 - 1>>}
InitFull == /\ full \in [q: Moms, E: Energies, m: Masses, order: Orders, sides: SideSets, K: {<<1, 0>>, <<0, 1>>, <<2, 0 - 3>>}]
            /\ case = full.q
NextFull == UNCHANGED <<case, full>>

Value(c) ==
  LET i == c.order[1]  j == c.order[2]  k == c.order[3]  l == c.order[4]
      q == c.q  E == c.E  s == c.sides
      qq == <<q[i], q[j], q[k], q[l]>>
      d1 == D1(q)
      d2a == D2(qq)                                 \* angular average of p_k.p_l
      d2b == D2(<<q[k], q[l], q[i], q[j]>>)         \* of p_i.p_j
      K1 == RAdd(RAdd(RMul(R(E[1] * E[2] * E[3] * E[4]), d1), RMul(R(s[1] * s[2] * s[3] * s[4]), D3(q))),
                 RAdd(RMul(R(E[i] * E[j] * s[k] * s[l]), d2a), RMul(R(E[k] * E[l] * s[i] * s[j]), d2b)))
      K2 == RMul(R(c.m[i] * c.m[j]), RAdd(RMul(R(E[k] * E[l]), d1), RMul(R(s[k] * s[l]), d2a)))
  IN RAdd(RMul(R(c.K[1]), K1), RMul(R(c.K[2]), K2))
(* the same, per unit momentum and energy of particle 1 at rest: E1 = m1 *)
ValueRest(c) ==
  LET i == c.order[1]  j == c.order[2]  k == c.order[3]  l == c.order[4]
      q == c.q  E == c.E  s == c.sides
      one == IF 1 \in {i, j} THEN i + j - 1 ELSE k + l - 1     \* partner of particle 1
      oth == IF 1 \in {i, j} THEN <<k, l>> ELSE <<i, j>>
      b1 == Db1(q)
      b2 == Db2(<<0, q[one], q[oth[1]], q[oth[2]]>>)
      sg == s[oth[1]] * s[oth[2]]
      K1 == RAdd(RMul(R(E[2] * E[3] * E[4]), b1), RMul(R(E[one] * sg), b2))
      K2 == IF c.m[1] = 0 /\ 1 \in {i, j} THEN R(0)
            ELSE IF 1 \in {i, j} THEN RMul(R(c.m[one]), RAdd(RMul(R(E[k] * E[l]), b1), RMul(R(sg), b2)))
            ELSE RMul(R(c.m[i] * c.m[j] * E[one]), b1)
  IN RAdd(RMul(R(c.K[1]), K1), RMul(R(c.K[2]), K2))
(* exchanging the two factors of a product, or the particles in a factor, does not matter *)
FactorSymmetric == \A o \in {<<2, 1, 3, 4>>, <<1, 2, 4, 3>>}:
     Value([full EXCEPT !.order = [n \in 1..4 |-> full.order[o[n]]]]) = Value(full)
ProductSymmetric == full.K[2] = 0 =>
     Value([full EXCEPT !.order = [n \in 1..4 |-> full.order[<<3, 4, 1, 2>>[n]]]]) = Value(full)
EmitFull == PrintT("@@" \o ToJson([c |-> full, value |-> Value(full),
     rest |-> IF Triangle(full.q) \/ OutTri(full.q) THEN <<ValueRest(full)>> ELSE <<>>]))
=============================================================================
