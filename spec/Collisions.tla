----------------------------- MODULE Collisions -----------------------------
(* The collision kernels themselves: what the compiled `integration` functions *)
(* return at a momentum p0 of the evolved particle (number 1, left side).       *)
(* Energies and momenta in units of aT.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms, Rationals

VARIABLE case

V(name, i) == Var(name \o ToString(i))
f(i) == V("f", i)
eta(s) == IF s = "F" THEN 1 ELSE 0 - 1
(* Pauli blocking / Bose enhancement *)
Block(c, i) == Sub(Num(1), Mul(Num(eta(c.stat[i])), f(i)))

Legs(c) == 1..Len(c.sides)
RECURSIVE Pr(_, _)
Pr(F(_), S) == IF S = {} THEN Num(1) ELSE LET i == CHOOSE i \in S: TRUE IN Mul(F(i), Pr(F, S \ {i}))
Left(c) == {i \in Legs(c): c.sides[i] = 0 - 1}
Right(c) == {i \in Legs(c): c.sides[i] = 1}
(* the reaction consumes the left side and fills the right one, and vice versa *)
Gain(c, skip) == Mul(Pr(f, Right(c) \ skip), Pr(LAMBDA i: Block(c, i), Left(c) \ skip))
Loss(c, skip) == Mul(Pr(f, Left(c) \ skip), Pr(LAMBDA i: Block(c, i), Right(c) \ skip))

Parent(c) == Len(c.sides)
Functional(c) ==
  CASE c.kind = "Full" -> Sub(Gain(c, {}), Loss(c, {}))
    [] c.kind = "F_1" -> Gain(c, {1})                                   \* part of the balance independent of f1 ...
    [] c.kind = "F_f" -> Sub(Neg(Loss(c, {1})), Mul(Num(eta(c.stat[1])), Gain(c, {1})))   \* ... and the coefficient of f1
    [] c.kind = "F_creation" -> Gain(c, {})
    [] c.kind = "F_decay" -> Neg(Loss(c, {1}))
    [] c.kind = "F_1_vacuum_decay" -> f(Parent(c))
    [] c.kind = "F_f_vacuum_decay" -> Num(0 - 1)
    [] c.kind = "Full_vacuum_decay" -> Sub(f(Parent(c)), f(1))
Kinds == {"Full", "F_1", "F_f", "F_creation", "F_decay", "F_1_vacuum_decay", "F_f_vacuum_decay", "Full_vacuum_decay"}

-----------------------------------------------------------------------------
(* three particles: p1 integrated over the energies of particle 2 the kinematics allows *)
M2(i) == Sq(V("m", i))
En(p, m) == Sqrt(Add(Sq(p), Sq(m)))
E1 == En(Var("p0"), Var("m1"))
(* decay of particle 1: energy and momentum of particle 2 in its rest frame *)
E2rest == Div(Sub(Add(M2(1), M2(2)), M2(3)), Mul(Num(2), Var("m1")))
(* creation: energy of particle 2 in the rest frame of particle 1 *)
E2with == Div(Sub(M2(3), Add(M2(1), M2(2))), Mul(Num(2), Var("m1")))
Mom(e, m) == Sqrt(Max2(Sub(Sq(e), Sq(m)), Num(0)))
Boost(e, sgn) == Div(Add(Mul(E1, e), Mul(Num(sgn), Mul(Var("p0"), Mom(e, Var("m2"))))), Var("m1"))
Kappa == Div(Sub(M2(3), M2(2)), Mul(Num(2), Var("p0")))
ParentMax == Sub(En(Var("pmax"), Var("m3")), E1)           \* the parent's grid ends at pmax
IsDecay(c) == Cardinality(Right(c)) > 1 /\ Cardinality(Left(c)) = 1
Lo3(c) == IF IsDecay(c) THEN Boost(E2rest, 0 - 1)
          ELSE IF c.m[1] = 0 THEN Mul(Rat(1, 2), Add(Kappa, Div(M2(2), Kappa)))
          ELSE Boost(E2with, 0 - 1)
Hi3(c) == IF IsDecay(c) THEN Boost(E2rest, 1)
          ELSE IF c.m[1] = 0 THEN ParentMax
          ELSE Min2(Boost(E2with, 1), ParentMax)
(* integrand over the energy e of particle 2; the driver substitutes f_i at the energies e1, e, e3 *)
Three(c) == [lo |-> Lo3(c), hi |-> Hi3(c), weight |-> Div(Num(2), Mul(Var("p0"), E1)), F |-> Functional(c),
             e1 |-> E1,
             e3 |-> IF IsDecay(c) THEN Sub(E1, Var("e")) ELSE Add(E1, Var("e")),
             \* at rest: all energies are fixed
             rest |-> IF IsDecay(c) THEN E2rest ELSE E2with,
             restp |-> Mom(IF IsDecay(c) THEN E2rest ELSE E2with, Var("m2"))]

Sides3 == {<<0 - 1, 1, 1>>, <<0 - 1, 0 - 1, 1>>}
Masses3(s) == IF s[2] = 1 THEN {<<10, 0, 0>>, <<10, 3, 4>>, <<10, 6, 0>>, <<5, 0, 4>>} ELSE {<<0, 0, 6>>, <<0, 3, 10>>, <<2, 3, 10>>, <<4, 0, 10>>, <<1, 4, 6>>}
Stats3 == {<<"F", "F", "B">>, <<"B", "F", "F">>, <<"F", "B", "F">>, <<"B", "B", "B">>}
Init3 == \E s \in Sides3: \E m \in Masses3(s), st \in Stats3, k \in Kinds, eq \in {<<0, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>}:
            case = [sides |-> s, m |-> m, stat |-> st, kind |-> k, eq |-> eq]
Next == UNCHANGED case
Emit3 == PrintT("@@" \o ToJson([c |-> case, t |-> Three(case)]))

-----------------------------------------------------------------------------
(* the angular kernels of DKernels.tla as terms in p1..p4: signed sums over k = q1 +- q2 +- q3 +- q4 *)
SignSeq == << <<1,1,1,1>>, <<1,1,1,0-1>>, <<1,1,0-1,1>>, <<1,1,0-1,0-1>>, <<1,0-1,1,1>>, <<1,0-1,1,0-1>>, <<1,0-1,0-1,1>>, <<1,0-1,0-1,0-1>> >>
Sig(s) == s[2] * s[3] * s[4]
X(q, s, i) == IF s[i] = 1 THEN q[i] ELSE Neg(q[i])
Kap(q, s) == Sum([i \in 1..4 |-> X(q, s, i)])
Signed(q, F(_), den) == Div(Sum([n \in 1..8 |-> Mul(Num(Sig(SignSeq[n])), F(SignSeq[n]))]), Num(den))
TD1(q) == Signed(q, LAMBDA s: Abs(Kap(q, s)), 0 - 4)
TD2(q) == Signed(q, LAMBDA s: Let("k", Kap(q, s), Mul(Abs(Var("k")),
             Sum(<<Prod(<<Num(6), X(q, s, 3), X(q, s, 4)>>), Prod(<<Num(0 - 3), Add(X(q, s, 3), X(q, s, 4)), Var("k")>>), Sq(Var("k"))>>))), 24)
TD3(q) == Signed(q, LAMBDA s:
   LET a == X(q, s, 1)  b == X(q, s, 2)  c == X(q, s, 3)  d == X(q, s, 4)
       e2 == Add(Add(Mul(a, b), Mul(c, d)), Mul(Add(a, b), Add(c, d)))
       e3 == Add(Prod(<<a, b, Add(c, d)>>), Prod(<<c, d, Add(a, b)>>))
   IN Let("k", Kap(q, s), Mul(Abs(Var("k")), Sum(<<Pow(Var("k"), Num(4)), Mul(Num(0 - 5), Pow(Var("k"), Num(4))),   \* the sum of the momenta is k
          Prod(<<Num(20), e2, Sq(Var("k"))>>), Prod(<<Num(0 - 60), e3, Var("k")>>), Prod(<<Num(120), a, b, c, d>>)>>))), 0 - 480)
TDb1(q) == Signed(q, LAMBDA s: Sgn(Kap(q, s)), 0 - 4)
TDb2(q) == Signed(q, LAMBDA s: Let("k", Kap(q, s), Sum(<<Prod(<<Num(6), X(q, s, 3), X(q, s, 4), Sgn(Var("k"))>>),
             Prod(<<Num(0 - 6), Add(X(q, s, 3), X(q, s, 4)), Abs(Var("k"))>>), Prod(<<Num(3), Var("k"), Abs(Var("k"))>>)>>)), 24)

pp(i) == V("p", i)
ee(i) == V("e", i)
mm(i) == V("m", i)
All == <<pp(1), pp(2), pp(3), pp(4)>>
(* amplitudes: sequences of [order, K1, K2], or a constant one *)
AmpOf(a) == CASE a = "s" -> << [o |-> <<1, 2, 3, 4>>, K1 |-> <<2, 1>>, K2 |-> <<0, 1>>] >>
              [] a = "t" -> << [o |-> <<1, 4, 2, 3>>, K1 |-> <<3, 2>>, K2 |-> <<0, 1>>] >>
              [] a = "m" -> << [o |-> <<3, 4, 1, 2>>, K1 |-> <<1, 1>>, K2 |-> <<0 - 1, 4>>] >>
              [] a = "mix" -> << [o |-> <<1, 2, 3, 4>>, K1 |-> <<1, 1>>, K2 |-> <<0, 1>>], [o |-> <<1, 3, 2, 4>>, K1 |-> <<1, 2>>, K2 |-> <<0, 1>>],
                                 [o |-> <<2, 3, 1, 4>>, K1 |-> <<0, 1>>, K2 |-> <<3, 10>>] >>
              [] a = "flat" -> << >>
Flat == <<17, 10>>
Q(r) == Rat(r[1], r[2])
(* K1 (p_i.p_j)(p_k.p_l) + K2 m_i m_j (p_k.p_l), averaged over the angles, per p1 E1 *)
Moving(c, M) ==
  LET i == M.o[1]  j == M.o[2]  k == M.o[3]  l == M.o[4]  s == c.sides
      K1 == Sum(<<Prod(<<ee(1), ee(2), ee(3), ee(4), TD1(All)>>), Mul(Num(s[1] * s[2] * s[3] * s[4]), TD3(All)),
                  Prod(<<Num(s[k] * s[l]), ee(i), ee(j), TD2(<<pp(i), pp(j), pp(k), pp(l)>>)>>),
                  Prod(<<Num(s[i] * s[j]), ee(k), ee(l), TD2(<<pp(k), pp(l), pp(i), pp(j)>>)>>)>>)
      K2 == Prod(<<mm(i), mm(j), Add(Prod(<<ee(k), ee(l), TD1(All)>>), Mul(Num(s[k] * s[l]), TD2(<<pp(i), pp(j), pp(k), pp(l)>>)))>>)
  IN Div(Add(IF M.K1[1] = 0 THEN Num(0) ELSE Mul(Q(M.K1), K1), IF M.K2[1] = 0 THEN Num(0) ELSE Mul(Q(M.K2), K2)), Mul(pp(1), ee(1)))
AtRest(c, M) ==
  LET i == M.o[1]  j == M.o[2]  k == M.o[3]  l == M.o[4]  s == c.sides
      one == IF 1 \in {i, j} THEN i + j - 1 ELSE k + l - 1
      oth == IF 1 \in {i, j} THEN <<k, l>> ELSE <<i, j>>
      b1 == TDb1(<<Num(0), pp(2), pp(3), pp(4)>>)
      b2 == Mul(Num(s[oth[1]] * s[oth[2]]), TDb2(<<Num(0), pp(one), pp(oth[1]), pp(oth[2])>>))
      K1 == Add(Prod(<<ee(2), ee(3), ee(4), b1>>), Mul(ee(one), b2))
      K2 == IF 1 \in {i, j} THEN Mul(mm(one), Add(Prod(<<ee(k), ee(l), b1>>), b2)) ELSE Prod(<<mm(i), mm(j), ee(one), b1>>)
  IN Add(Mul(Q(M.K1), K1), Mul(Q(M.K2), K2))
FlatMoving == Div(Mul(Q(Flat), TD1(All)), Mul(pp(1), ee(1)))
FlatAtRest == Div(Mul(Q(Flat), TDb1(<<Num(0), pp(2), pp(3), pp(4)>>)), ee(1))
SumOver(c, F(_, _)) == Sum([n \in 1..Len(AmpOf(c.amp)) |-> F(c, AmpOf(c.amp)[n])])

(* four particles: energies of 1, 2, 3 free, that of 4 from conservation *)
E4(c) == Neg(Mul(Num(c.sides[4]), Sum([i \in 1..3 |-> Mul(Num(c.sides[i]), V("e", i))])))
Sides4 == {<<0 - 1, 0 - 1, 1, 1>>, <<0 - 1, 1, 1, 1>>, <<0 - 1, 0 - 1, 0 - 1, 1>>}
Masses4(s) == IF s = <<0 - 1, 0 - 1, 1, 1>> THEN {<<0, 0, 0, 0>>, <<0, 1, 0, 1>>, <<2, 0, 0, 0>>, <<0, 0, 1, 1>>, <<3, 0, 1, 1>>, <<1, 1, 0, 2>>, <<1, 0, 2, 1>>,
                                                   <<0, 3, 0, 3>>, <<0, 3, 1, 0>>, <<0, 1, 4, 3>>, <<0, 0, 3, 3>>}
              ELSE IF s[2] = 1 THEN {<<8, 0, 0, 0>>, <<8, 1, 2, 3>>, <<6, 0, 2, 2>>, <<7, 5, 0, 0>>, <<7, 0, 5, 0>>, <<7, 0, 0, 5>>}
              ELSE {<<0, 0, 0, 8>>, <<1, 2, 3, 10>>, <<0, 1, 1, 6>>, <<2, 0, 0, 8>>, <<0, 0, 5, 7>>, <<0, 5, 0, 7>>, <<5, 0, 0, 7>>}
Stats4 == {<<"F", "F", "F", "F">>, <<"F", "B", "F", "B">>, <<"B", "F", "B", "F">>, <<"B", "B", "B", "B">>, <<"F", "F", "B", "B">>, <<"F", "F", "F", "B">>, <<"B", "F", "F", "F">>}
Amps == {"s", "t", "m", "mix", "flat"}
Init4 == \E s \in Sides4: \E m \in Masses4(s), st \in Stats4, k \in Kinds, a \in Amps, eq \in {<<0, 0, 0, 0>>, <<0, 1, 1, 0>>}:
            /\ \A i \in 1..4: st[i] = "B" => m[i] > 0         \* (condensates of massless bosons are out of scope)
            /\ case = [sides |-> s, m |-> m, stat |-> st, kind |-> k, eq |-> eq, amp |-> a]
Emit4 == PrintT("@@" \o ToJson([c |-> case, F |-> Functional(case), e4 |-> E4(case), amps |-> AmpOf(case.amp), flat |-> Flat]))
(* the amplitude terms depend on sides and amplitude only: emitted once per combination *)
EmitAmps == (case.kind = "Full" /\ case.m \in {<<0, 0, 0, 0>>, <<8, 0, 0, 0>>, <<0, 0, 0, 8>>} /\ case.stat = <<"F", "F", "F", "F">> /\ case.eq = <<0, 0, 0, 0>>)
   => PrintT("@@" \o ToJson([sides |-> case.sides, amp |-> case.amp, moving |-> IF AmpOf(case.amp) = << >> THEN FlatMoving ELSE SumOver(case, Moving),
                            atrest |-> IF AmpOf(case.amp) = << >> THEN FlatAtRest ELSE SumOver(case, AtRest)]))
-----------------------------------------------------------------------------
(* laws of the functional, exactly, on rational occupation numbers *)
RECURSIVE REv(_, _)
REv(t, env) == CASE t[1] = "q" -> RNorm(t[2], t[3])
                 [] t[1] = "v" -> env[t[2]]
                 [] t[1] = "+" -> RAdd(REv(t[2], env), REv(t[3], env))
                 [] t[1] = "-" -> RSub(REv(t[2], env), REv(t[3], env))
                 [] t[1] = "*" -> RMul(REv(t[2], env), REv(t[3], env))
Names(c) == {"f" \o ToString(i): i \in Legs(c)}
Val(c, kind, env) == REv(Functional([c EXCEPT !.kind = kind]), env)
(* occupation number of a state with Boltzmann factor x in equilibrium *)
Occ(st, x) == IF st = "F" THEN RDiv(x, RAdd(R(1), x)) ELSE RDiv(x, RSub(R(1), x))
(* Boltzmann factors whose products over the two sides agree: energy is conserved *)
Bolt(c) == LET L == Left(c)  n == Cardinality(L)  r == Cardinality(Right(c))
           IN [i \in Legs(c) |-> IF i \in L THEN RPow(<<1, 2>>, r) ELSE RPow(<<1, 2>>, n)]
Env(c, F(_)) == [nm \in Names(c) |-> F(CHOOSE i \in Legs(c): nm = "f" \o ToString(i))]
Thermal(c) == Env(c, LAMBDA i: Occ(c.stat[i], Bolt(c)[i]))
Some(c) == Env(c, LAMBDA i: <<i, 7 + i>>)
Linear == \A env \in {Some(case), Thermal(case)}:
            /\ Val(case, "Full", env) = RAdd(Val(case, "F_1", env), RMul(env["f1"], Val(case, "F_f", env)))
            /\ Val(case, "Full", env) = RAdd(Val(case, "F_creation", env), RMul(env["f1"], Val(case, "F_decay", env)))
            /\ Val(case, "Full_vacuum_decay", env) = RAdd(Val(case, "F_1_vacuum_decay", env), RMul(env["f1"], Val(case, "F_f_vacuum_decay", env)))
DetailedBalance == Val(case, "Full", Thermal(case)) = R(0)
Direction == \A env \in {Some(case), Thermal(case)}: RLt(R(0), Val(case, "F_creation", env)) /\ RLt(Val(case, "F_decay", env), R(0))
=============================================================================
