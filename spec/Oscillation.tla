----------------------------- MODULE Oscillation -----------------------------
(* Flavour oscillations between the collision integrals and the distribution   *)
(* functions: in every step in which at least one of the oscillating species    *)
(* is below its decoupling temperature, each species receives the mixture of    *)
(* the integrals *of this step* of all of them, with the transition             *)
(* probabilities of the current plasma; nothing else is touched.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, Terms

CONSTANTS MaxSteps, Flavours, Bystanders

VARIABLES on,        \* oscillations initialised?
          dec,       \* decoupling temperature of each flavour
          T,         \* plasma temperature
          integral,  \* species -> what update_distribution receives in this step
          raw,       \* species -> the collision integral calculated in this step
          pat,       \* index of the transition matrix of this step
          hist
vars == <<on, dec, T, integral, raw, pat, hist>>

Half == <<1, 2>>
(* symmetric, doubly stochastic transition matrices *)
Patterns == <<
   [a \in Flavours |-> [b \in Flavours |-> IF a = b THEN R(1) ELSE R(0)]],
   [a \in Flavours |-> [b \in Flavours |-> IF a = b THEN <<1, 2>> ELSE RDiv(Half, R(Cardinality(Flavours) - 1))]],
   [a \in Flavours |-> [b \in Flavours |->
      IF "tau" \in {a, b} THEN (IF a = b THEN R(1) ELSE R(0)) ELSE IF Cardinality(Flavours \ {"tau"}) = 1 THEN R(1) ELSE IF a = b THEN <<3, 4>> ELSE <<1, 4>>]] >>

Species == Flavours \cup Bystanders
Raws == { [s \in Species |-> IF s = "muon" THEN R(4) ELSE IF s = "electron" THEN R(0 - 1) ELSE IF s = "tau" THEN <<1, 2>> ELSE R(7)],
          [s \in Species |-> IF s = "electron" THEN R(8) ELSE R(0)],
          [s \in Species |-> IF s = "tau" THEN R(0 - 2) ELSE R(1)] }

RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN R(0) ELSE LET s == CHOOSE s \in S: TRUE IN RAdd(f[s], Total(f, S \ {s}))

Active == on /\ \E f \in Flavours: T < dec[f]
Mixed(p, r, a) == Total([b \in Flavours |-> RMul(Patterns[p][a][b], r[b])], Flavours)

Init == /\ on \in BOOLEAN
        /\ dec \in [Flavours -> {2, 5}]
        /\ T = 6 /\ pat = 1
        /\ raw = [s \in Species |-> R(0)] /\ integral = raw
        /\ hist = <<>>

Step(t, p, r) ==
   /\ T' = t /\ pat' = p /\ raw' = r
   /\ integral' = [s \in Species |-> IF s \in Flavours /\ on /\ (\E f \in Flavours: t < dec[f]) THEN Mixed(p, r, s) ELSE r[s]]
   /\ hist' = Append(hist, [T |-> t, pat |-> p, raw |-> r, integral |-> integral'])
   /\ UNCHANGED <<on, dec>>

Next == /\ Len(hist) < MaxSteps
        /\ \E t \in {1, 3, 5, 6}, p \in DOMAIN Patterns, r \in Raws: t <= T /\ Step(t, p, r)

TypeOK == DOMAIN integral = Species
(* the transition matrices conserve: rows add to one *)
Stochastic == \A p \in DOMAIN Patterns: \A a \in Flavours:
                 /\ Total(Patterns[p][a], Flavours) = R(1)
                 /\ \A b \in Flavours: Patterns[p][a][b] = Patterns[p][b][a] /\ RLe(R(0), Patterns[p][a][b])
Conserved == Total(integral, Flavours) = Total(raw, Flavours)        \* oscillations neither create nor destroy
Untouched == /\ \A s \in Bystanders: integral[s] = raw[s]
             /\ ~Active => integral = raw

(* transition probabilities of mixing angles t12, t13 (t23 = 0) averaged over the phase: sum_i |U_ai|^2 |U_bi|^2 *)
c12 == Cos(Var("t12"))  s12 == Sin(Var("t12"))  c13 == Cos(Var("t13"))  s13 == Sin(Var("t13"))
U == [electron |-> <<Mul(c12, c13), Mul(s12, c13), s13>>,
      muon     |-> <<Neg(s12), c12, Num(0)>>,
      tau      |-> <<Neg(Mul(c12, s13)), Neg(Mul(s12, s13)), c13>>]
Prob(a, b) == Sum([i \in 1..3 |-> Mul(Sq(U[a][i]), Sq(U[b][i]))])
Matter(t, m) == Mul(Rat(1, 2), Atan(Div(Sin(Mul(Num(2), Var(t))), Add(Cos(Mul(Num(2), Var(t))), Var(m)))))
(* effective potential relative to the vacuum splitting, for conformal momentum y *)
MSW(dm) == Div(Prod(<<Var("MSW"), Sq(Div(Var("y"), Var("a"))), Pow(Var("T"), Num(4))>>), Var(dm))

Emit == Len(hist) = MaxSteps => PrintT("@@" \o ToJson([on |-> on, dec |-> dec, hist |-> hist]))
EmitTerms == (hist = <<>> /\ on /\ \A f \in Flavours: dec[f] = 2) => PrintT("@@" \o ToJson(
   [patterns |-> Patterns, prob |-> [a \in DOMAIN U |-> [b \in DOMAIN U |-> Prob(a, b)]],
    t12 |-> Matter("t12", "m12"), t13 |-> Matter("t13", "m13"), m12 |-> MSW("dm12"), m13 |-> MSW("dm13")]))
=============================================================================
