---------------------------- MODULE Coordinates ----------------------------
(* The same universe computed in several coordinates at once: steps of log a *)
(* or of x = m a, and different normalisations m of the scale factor         *)
(* (a = m / T at the start, momenta on the grids scale along).  A step of    *)
(* log a by dy and one of x by x dy are the same step, so every physical     *)
(* quantity is the same in all of them and every coordinate dependent one    *)
(* differs by its weight in m and, if it is a rate, by the factor x.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals

CONSTANTS Norms,      \* exponents of two of the normalisation
          MaxSteps

Kinds == {"log", "lin"}
Coords == [kind: Kinds, norm: Norms]
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN R(1) ELSE IF n > 0 THEN RMul(R(2), Two(n - 1)) ELSE RDiv(Two(n + 1), R(2))

(* what a run computes: power of the normalisation, and of x when going from steps of x to steps of log a *)
Weights == [T |-> [norm |-> 0, rate |-> 0], a |-> [norm |-> 1, rate |-> 0], aT |-> [norm |-> 1, rate |-> 0], x |-> [norm |-> 2, rate |-> 0],
            momentum |-> [norm |-> 1, rate |-> 0], t |-> [norm |-> 0, rate |-> 0], H |-> [norm |-> 0, rate |-> 0], rho |-> [norm |-> 0, rate |-> 0],
            S |-> [norm |-> 0, rate |-> 0], N_eff |-> [norm |-> 0, rate |-> 0], fraction |-> [norm |-> 1, rate |-> 1], occupation |-> [norm |-> 0, rate |-> 0],
            collision |-> [norm |-> 0, rate |-> 1], dTdt |-> [norm |-> 0, rate |-> 0], rates |-> [norm |-> 0, rate |-> 0], dx |-> [norm |-> 2, rate |-> 0],
            density |-> [norm |-> 0, rate |-> 0], energy_density |-> [norm |-> 0, rate |-> 0], pressure |-> [norm |-> 0, rate |-> 0], entropy |-> [norm |-> 0, rate |-> 0],
            numerator |-> [norm |-> 2, rate |-> 0], denominator |-> [norm |-> 3, rate |-> 0]]

VARIABLES run,      \* coordinates -> state of the run in them
          n, steps
vars == <<run, n, steps>>

(* a toy plasma: the temperature falls a little slower than 1/a, an occupation relaxes to the temperature *)
PhysRate(T) == RMul(RNorm(1, 7), T)                  \* physical: d aT / d log a, in units of a
PhysColl(T, f) == RMul(RNorm(1, 3), RSub(T, f))      \* d f / d log a
Start(c) == LET m == Two(c.norm) IN [a |-> RDiv(m, R(2)), x |-> RDiv(RMul(m, m), R(2)), aT |-> m, f |-> R(1)]
Temp(s) == RDiv(s.aT, s.a)
Fraction(c, s) == LET g == RMul(s.a, PhysRate(Temp(s))) IN IF c.kind = "log" THEN g ELSE RDiv(g, s.x)
Collision(c, s) == LET g == PhysColl(Temp(s), s.f) IN IF c.kind = "log" THEN g ELSE RDiv(g, s.x)
Size(c, s, dy) == IF c.kind = "log" THEN dy ELSE RMul(s.x, dy)        \* in the integration variable
Step(c, s, dy) == LET x1 == RAdd(s.x, RMul(s.x, dy)) IN
  [x |-> x1, a |-> RDiv(x1, Two(c.norm)), aT |-> RAdd(s.aT, RMul(Fraction(c, s), Size(c, s, dy))), f |-> RAdd(s.f, RMul(Collision(c, s), Size(c, s, dy)))]

Init == run = [c \in Coords |-> Start(c)] /\ n = 0 /\ steps = <<>>
Next == \E dy \in {RNorm(1, 2), R(1)}: n < MaxSteps /\ n' = n + 1 /\ steps' = Append(steps, dy) /\ run' = [c \in Coords |-> Step(c, run[c], dy)]
Spec == Init /\ [][Next]_vars

(* laws *)
RECURSIVE Pw(_, _)
Pw(r, k) == IF k = 0 THEN R(1) ELSE IF k > 0 THEN RMul(r, Pw(r, k - 1)) ELSE RDiv(Pw(r, k + 1), r)
Factor(q, c, d, xd) == RMul(Pw(Two(d.norm - c.norm), Weights[q].norm - (IF c.kind = "lin" /\ d.kind = "lin" THEN 2 * Weights[q].rate ELSE 0)),      \* value in d over value in c; xd: x in d
                            IF c.kind = d.kind THEN R(1)
                            ELSE IF d.kind = "log" THEN Pw(RDiv(xd, Pw(Two(d.norm - c.norm), 2)), Weights[q].rate) ELSE Pw(xd, 0 - Weights[q].rate))
Read(q, c, s) == CASE q = "T" -> Temp(s) [] q = "a" -> s.a [] q = "aT" -> s.aT [] q = "x" -> s.x [] q = "occupation" -> s.f
                   [] q = "fraction" -> Fraction(c, s) [] OTHER -> Collision(c, s)
Covariant == \A c, d \in Coords: \A q \in {"T", "a", "aT", "x", "occupation", "fraction", "collision"}:
               Read(q, d, run[d]) = RMul(Factor(q, c, d, run[d].x), Read(q, c, run[c]))
Weighted == /\ Weights["aT"].norm = Weights["a"].norm + Weights["T"].norm /\ Weights["x"].norm = Weights["a"].norm + 1
            /\ Weights["fraction"].norm = Weights["aT"].norm /\ Weights["numerator"].norm + Weights["x"].norm = Weights["denominator"].norm + Weights["aT"].norm
Emit == n = MaxSteps => PrintT("@@" \o ToJson([steps |-> [i \in DOMAIN steps |-> <<steps[i][1], steps[i][2]>>], coords |-> Coords, weights |-> Weights]))
=============================================================================
