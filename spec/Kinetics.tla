------------------------------ MODULE Kinetics ------------------------------
(* How a species out of equilibrium is advanced by its collision integrals:  *)
(* step after step, its distribution f and the recorded integrals I1..In.    *)
(* One momentum is enough: the momenta do not mix.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, Terms, Multistep

CONSTANTS MaxSteps, Massive, Kinds          \* a massless species never vanishes; Kinds: subset of {"full", "loss", "gain"}
VARIABLES n, gone, f, hist         \* recorded integrals, has the species vanished, "zero" or "any", the behaviour so far
vars == <<n, gone, f, hist>>

Q(r) == Rat(r[1], r[2])
(* integrals of this step, by kind: a full integral reports its total C and the coefficient B of the distribution;
   a loss reports G, which counts as total and as coefficient; a gain reports its total *)
RECURSIVE Tot(_, _), Cof(_, _)
Tot(ks, i) == IF i > Len(ks) THEN <<>> ELSE << Var((IF ks[i] = "full" THEN "C" ELSE "G") \o ToString(i)) >> \o Tot(ks, i + 1)
Cof(ks, i) == IF i > Len(ks) THEN <<>>
              ELSE (IF ks[i] = "full" THEN <<Var("B" \o ToString(i))>> ELSE IF ks[i] = "loss" THEN <<Var("G" \o ToString(i))>> ELSE <<>>) \o Cof(ks, i + 1)
Total(ks) == Sum(<<Num(0)>> \o Tot(ks, 1))
Coefficient(ks) == Sum(<<Num(0)>> \o Cof(ks, 1))

(* implicit multistep increment, linear in the new distribution: Var("I1") is the oldest recorded integral *)
Order(len) == IF len + 1 < MaxOrder THEN len + 1 ELSE MaxOrder
Past(len) == LET k == Order(len) IN [j \in 1..(k - 1) |-> Mul(Q(AM[k][j]), Var("I" \o ToString(len - (k - 1) + j)))]
Increment(ks, len) == LET w == Q(AM[Order(len)][Order(len)])
                      IN Div(Sum(<<Num(0)>> \o Past(len) \o <<Mul(w, Total(ks))>>), Sub(Num(1), Prod(<<Var("h"), w, Coefficient(ks)>>)))
Advance(I) == Max2(Num(0), Add(Var("f"), Mul(Var("h"), I)))

Lists == {<<>>} \cup {<<a>>: a \in Kinds} \cup {<<a, b>>: a \in Kinds, b \in Kinds}
Init == n = 0 /\ gone = FALSE /\ f = "any" /\ hist = <<>>

Row(ks, dil, noise, I, fn) == [kinds |-> ks, dilute |-> dil, noise |-> noise, I |-> I, f |-> fn, gone |-> gone']
(* an undefined (NaN) integral counts as zero *)
Step == \E ks \in Lists, dil, noise \in BOOLEAN:
        /\ noise => ks # <<>> /\ ~gone
        /\ LET vanishes == Massive /\ n > 0 /\ ~gone /\ dil /\ ks # <<>>     \* noticed when the collisions are integrated, once there is a history
               idle == gone \/ vanishes \/ ks = <<>>
               I == IF idle THEN Num(0) ELSE Increment(ks, n)          \* (noise: zero at the momentum concerned)
           IN /\ gone' = (gone \/ vanishes)
              /\ f' = IF gone' THEN "zero" ELSE f
              /\ n' = n + 1
              /\ hist' = Append(hist, Row(ks, dil, noise, I, IF gone' THEN Num(0) ELSE Advance(I)))
Next == n < MaxSteps /\ Step

TypeOK == n \in 0..MaxSteps /\ gone \in BOOLEAN /\ f \in {"zero", "any"}
VanishedStaysVanished == [][gone => gone' /\ f' = "zero"]_vars
RecordedEveryStep == Len(hist) = n
Emit == n = MaxSteps => PrintT("@@" \o ToJson(hist))

(* ---- species that decay at once: everything created in a step also decays in it *)
(* g: states counted, F: sum of the gains, D_i, BR_i: loss kernel and branching ratio of channel i, bg: thermal background *)
Background == If(Var("thermal"), Mul(Var("feq"), Exp(Div(Sub(Var("tdec"), Var("t")), Var("tau")))), Num(0))
Created == Mul(Var("g"), Integral("y", Mul(Var("F"), Sq(Var("y"))), Num(0), Var("Y")))
Before == Add(Var("bg"), Mul(Var("h"), Var("F")))
Thermal == Add(Var("bg"), Mul(Prod(<<Var("h"), Var("N"), Num(4), Pi>>), Div(Exp(Neg(Div(Sq(Var("y")), Prod(<<Num(2), Var("m"), Var("aT")>>)))),
                                                                     Pow(Prod(<<Num(2), Pi, Var("m"), Var("aT")>>), Rat(3, 2)))))
LossShape == Mul(Var("D"), Var("before"))
InitFast == n \in {0} /\ gone = FALSE /\ f = "any" /\ hist = <<>>
EmitFast == n = 0 => PrintT("@@" \o ToJson([background |-> Background, before |-> Before, thermal |-> Thermal, loss |-> LossShape]))

(* ---- an integral takes part in a step iff the plasma is below the decoupling temperature and the species is out of equilibrium *)
Active(T, Tdec, eq) == T < Tdec /\ ~eq
InitActive == /\ n \in 1..3 /\ f \in {"below", "at", "above"} /\ gone \in BOOLEAN /\ hist = <<>>
EmitActive == PrintT("@@" \o ToJson([legs |-> n, plasma |-> f, eq |-> gone, active |-> Active(IF f = "below" THEN 1 ELSE IF f = "at" THEN 2 ELSE 3, 2, gone)]))
=============================================================================
