------------------------------ MODULE Steppers ------------------------------
(* One-step advance of an ODE from the history of its right-hand side.       *)
(* The weights are not copied from the code: they are the unique solution of *)
(* the order conditions, which TLC re-verifies exactly (OrderConditions).    *)
EXTENDS Integers, Sequences, TLC, Json, Rationals, Multistep

Weights(kind, k) == IF kind = "explicit" THEN AB[k] ELSE AM[k]
(* abscissa of the j-th oldest of k values, in steps from the current point *)
Node(kind, k, j) == IF kind = "explicit" THEN j - k ELSE j - k + 1

Dot(w, f) == RSumF([i \in 1..Len(w) |-> RMul(w[i], f[i])], Len(w))
Tail_(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))

(* exact for every polynomial of degree below the order: the increment of the integral over one step *)
OrderConditions ==
  \A kind \in {"explicit", "implicit"}: \A k \in 1..MaxOrder: \A deg \in 0..(k - 1):
     Dot(Weights(kind, k), [j \in 1..k |-> RPow(R(Node(kind, k, j)), deg)]) = <<1, deg + 1>>

(* explicit: the most recent k = min(order, available) values decide the increment *)
Explicit(fs, h, order) == RMul(h, Dot(AB[order], Tail_(fs, order)))
(* implicit and linear: y' = A + B y with A + B y evaluated at the new point *)
Implicit(y, fs, A, B, h, order) ==
  LET g == Tail_(Append(fs, A), order)
  IN RDiv(RAdd(y, RMul(h, Dot(AM[order], g))), RSub(R(1), RMul(RMul(h, B), AM[order][order])))
DefaultExplicit(n) == IF n < MaxOrder THEN n ELSE MaxOrder
DefaultImplicit(n) == IF n + 1 < MaxOrder THEN n + 1 ELSE MaxOrder

(* single-step rules on f(t, y) = p + q t + r y *)
F(c, t, y) == RAdd(c[1], RAdd(RMul(c[2], t), RMul(c[3], y)))
Euler(c, t, y, h) == RMul(h, F(c, t, y))
Heun(c, t, y, h) == LET e == Euler(c, t, y, h)
                    IN RDiv(RAdd(e, Euler(c, RAdd(t, h), RAdd(y, e), h)), R(2))
ImplicitEuler(y, A, B, h) == RDiv(RAdd(y, RMul(A, h)), RSub(R(1), RMul(B, h)))

(* right-hand sides: single spikes (each weight on its own) and mixed histories *)
Spike(n, i) == [j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)]
Mixed(n, s) == [j \in 1..n |-> <<((7 * j + 3 * s) % 11) - 5, 2>>]
Histories(n) == {Spike(n, i): i \in 1..n} \cup {Mixed(n, s): s \in 1..2}
Hs == {R(1), <<1, 10>>}

VARIABLE case
Init == \/ \E n \in 1..8: \E fs \in Histories(n), h \in Hs, o \in 0..MaxOrder:
             /\ o <= n
             /\ case = [rule |-> "explicit", fs |-> fs, h |-> h, order |-> o,
                        want |-> Explicit(fs, h, IF o = 0 THEN DefaultExplicit(n) ELSE o)]
        \/ \E n \in 0..7: \E fs \in (IF n = 0 THEN {<<>>} ELSE Histories(n)), h \in Hs, o \in 0..MaxOrder,
              y \in {R(0), <<3, 2>>}, A \in {R(0), R(2)}, B \in {R(0), <<0 - 1, 4>>}:
             /\ o <= n + 1
             /\ case = [rule |-> "implicit", fs |-> fs, h |-> h, order |-> o, y |-> y, A |-> A, B |-> B,
                        want |-> Implicit(y, fs, A, B, h, IF o = 0 THEN DefaultImplicit(n) ELSE o)]
        \/ \E c \in {<<R(1), R(0), R(0)>>, <<R(0), R(2), R(0)>>, <<R(0), R(0), R(3)>>, <<R(1), R(2), <<0 - 1, 2>>>>},
              t \in {R(0), R(2)}, y \in {R(0), <<5, 2>>}, h \in Hs:
             \/ case = [rule |-> "euler", c |-> c, t |-> t, y |-> y, h |-> h, want |-> Euler(c, t, y, h)]
             \/ case = [rule |-> "heun", c |-> c, t |-> t, y |-> y, h |-> h, want |-> Heun(c, t, y, h)]
        \/ \E y \in {R(0), <<5, 2>>}, A \in {R(0), R(3)}, B \in {R(0), <<0 - 2, 1>>, <<1, 2>>}, h \in Hs:
             case = [rule |-> "implicit euler", y |-> y, A |-> A, B |-> B, h |-> h, want |-> ImplicitEuler(y, A, B, h)]
Next == UNCHANGED case

(* implicit steps reduce to explicit trapezoid and to the fixed point of the equation *)
Stationary == case.rule = "implicit euler" /\ RAdd(case.A, RMul(case.B, case.y)) = R(0) => case.want = case.y
Conserving == case.rule = "explicit" /\ (\A i \in 1..Len(case.fs): case.fs[i] = case.fs[1]) => case.want = RMul(case.h, case.fs[1])
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
