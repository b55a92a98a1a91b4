------------------------------- MODULE Cutoffs -------------------------------
(* Which momenta of a grid a collision integral is computed for: everything  *)
(* the kinematics can reach, nothing dropped, and zero for the rest of the   *)
(* grid.  Nodes are even numbers, bounds any number.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

CONSTANTS K
Grids == {S \cup {0}: S \in {X \in SUBSET {2 * i: i \in 1..K}: X # {}}}
Max(S) == CHOOSE v \in S: \A u \in S: u <= v
Min(S) == CHOOSE v \in S: \A u \in S: u >= v
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
Max2i(a, b) == IF a > b THEN a ELSE b

(* the computed part reaches up to the first node at or above the bound, down to the last node at or below the lower bound *)
UpperNode(S, hi) == IF \E v \in S: v >= hi THEN Min({v \in S: v >= hi}) ELSE Max(S)
LowerNode(S, lo) == IF \E v \in S: v <= lo THEN Max({v \in S: v <= lo}) ELSE Min(S)
Computed(S, lo, hi) == {v \in S: LowerNode(S, lo) <= v /\ v <= UpperNode(S, hi)}

VARIABLE case
Init == \/ \E S \in Grids, env \in 1..(2 * K + 2), kind \in {"scattering", "decay", "creation"}, hnl \in {0, 3, 2 * K + 1}, isH \in BOOLEAN:
             \* hnl: reach (momentum) of the heavy neutrino's products if it is known, 0 if not; isH: the evolved particle is the heavy neutrino
             /\ kind = "creation" => hnl # 0 /\ ~isH     \* for creation: hnl is the reach of the parent
             /\ LET hi == IF kind = "creation" THEN Max2i(hnl, env)
                          ELSE IF isH THEN Max(S)
                          ELSE IF hnl # 0 THEN Max2i(hnl, env)
                          ELSE IF kind = "scattering" THEN env ELSE Max(S)
                IN case = [legs |-> 4, kind |-> kind, grid |-> S, env |-> env, hnl |-> hnl, isH |-> isH, lo |-> 0, hi |-> hi, zone |-> Computed(S, 0, hi)]
        \/ \E S \in Grids, lo \in {1, 3, 5}, hi \in {3, 5, 7, 2 * K + 1}:
             /\ lo < hi
             /\ case = [legs |-> 3, kind |-> "creation", grid |-> S, env |-> 0, hnl |-> 0, isH |-> FALSE, lo |-> lo, hi |-> hi, zone |-> Computed(S, lo, hi)]
Next == UNCHANGED case

Covers == \A v \in case.grid: case.lo <= v /\ v <= case.hi => v \in case.zone
Contiguous == \A u, v, w \in case.grid: u < v /\ v < w /\ u \in case.zone /\ w \in case.zone => v \in case.zone
Tight == Cardinality({v \in case.zone: v > case.hi}) <= 1 /\ Cardinality({v \in case.zone: v < case.lo}) <= 1

(* ---- kinematic reach: two-body decay of particle 3 (momentum up to P3) into 1 and 2, comoving masses m1, m2, m3 *)
V(x) == Var(x)
PCM == Div(Sqrt(Sub(Sq(Sub(Sq(V("m3")), Add(Sq(V("m1")), Sq(V("m2"))))), Sq(Prod(<<Num(2), V("m1"), V("m2")>>)))), Mul(Num(2), V("m3")))
ECM == Sqrt(Add(Sq(V("m1")), Sq(PCM)))
E3 == Sqrt(Add(Sq(V("P3")), Sq(V("m3"))))
Lab(cos) == Div(Add(Mul(E3, ECM), Mul(Mul(V("P3"), PCM), Num(cos))), V("m3"))       \* boosted energy
PLab(cos) == Sqrt(Max2(Sub(Sq(Lab(cos)), Sq(V("m1"))), Num(0)))
Reach3 == [hi |-> PLab(1), lo |-> If(Lt(Num(0), V("m1")), Num(0), PLab(0 - 1))]
Reach4 == Sqrt(Sub(Sq(Sub(Sqrt(Add(Sq(V("P4")), Sq(V("m4")))), Add(V("m2"), V("m3")))), Sq(V("m1"))))

Emit == PrintT("@@" \o ToJson([legs |-> case.legs, kind |-> case.kind, grid |-> Sorted(case.grid), env |-> case.env, hnl |-> case.hnl, isH |-> case.isH,
                               lo |-> case.lo, hi |-> case.hi, zone |-> Sorted(case.zone)]))
EmitReach == case.legs = 0 => PrintT("@@" \o ToJson([pcm |-> PCM, r3 |-> Reach3, r4 |-> Reach4]))
InitReach == case = [legs |-> 0]
=============================================================================
