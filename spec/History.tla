------------------------------ MODULE History ------------------------------
(* A whole history of the plasma, from well above to well below the masses   *)
(* of all that is massive in it.  Every kind of matter is absent, light      *)
(* (massless, in the plasma to the end), heavy (it annihilates into the      *)
(* rest) or free (it decoupled before).  The entropy of the plasma is        *)
(* conserved, so (aT)^3 grows by the ratio of the relativistic degrees of    *)
(* freedom in the plasma, whatever the masses, their order and the free      *)
(* species are.  Degrees of freedom count in eighths: bosons 8, fermions 7.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"lepton", "scalar", "neutral"}         \* 4 fermionic, 3 bosonic and 2 fermionic states
Eighths(k) == CASE k = "lepton" -> 4 * 7 [] k = "scalar" -> 3 * 8 [] k = "neutral" -> 2 * 7
Fates == {"absent", "light", "heavy", "free"}
Photon == 2 * 8
VARIABLE case
(* a massless boson that decoupled has no finite number at momentum zero: the grids start there *)
Init == case \in {c \in [Kinds -> Fates]: c["scalar"] # "free"}
Next == UNCHANGED case
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S: TRUE IN Eighths(k) + Total(S \ {k})
With(fates) == {k \in Kinds: case[k] \in fates}
Before == Photon + Total(With({"light", "heavy"}))
After == Photon + Total(With({"light"}))
(* laws *)
Heats == Before >= After /\ (Before = After <=> With({"heavy"}) = {})
Electrons == case = [lepton |-> "heavy", scalar |-> "absent", neutral |-> "free"] => 4 * Before = 11 * After
(* annihilation of two kinds heats as one after the other: the order of the masses does not matter *)
Stages == \A k \in With({"heavy"}): LET mid == After + Eighths(k) IN After < mid /\ mid <= Before
Emit == PrintT("@@" \o ToJson([fates |-> case, before |-> Before, after |-> After]))
=============================================================================
