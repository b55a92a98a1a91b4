-------------------------------- MODULE Flags --------------------------------
(* What the collisions of a universe depend on besides its particles: whether   *)
(* its heavy neutrino decoupled while relativistic (its scatterings then end    *)
(* earlier) and how energetic its products are (light neutrinos are followed to *)
(* larger momenta).  Both are those of the universe itself: whatever was done   *)
(* in other universes of the process before, the same universe computes the     *)
(* same.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Universes, MaxSteps
Kinds == {"none", "warm", "hot"}      \* no heavy neutrino; decoupled non-relativistic; relativistic

VARIABLES heavy, hist
vars == <<heavy, hist>>

Init == heavy = [u \in Universes |-> "absent"] /\ hist = <<>>

(* collisions of a universe of this kind *)
Reach(k) == IF k = "none" THEN "usual" ELSE "heavy"
Scatters(k) == k = "warm"

Create(u, k) == /\ heavy[u] = "absent"
                /\ heavy' = [heavy EXCEPT ![u] = k]
                /\ hist' = Append(hist, [what |-> "create", u |-> u, kind |-> k])
Collide(u) == /\ heavy[u] # "absent"
              /\ UNCHANGED heavy
              /\ hist' = Append(hist, [what |-> "collide", u |-> u, kind |-> heavy[u], reach |-> Reach(heavy[u]), scatters |-> Scatters(heavy[u])])
Next == Len(hist) < MaxSteps /\ \E u \in Universes: Collide(u) \/ \E k \in Kinds: Create(u, k)

(* collisions are a function of the universe, not of the history *)
SameUniverseSameResult == \A i, j \in DOMAIN hist:
    hist[i].what = "collide" /\ hist[j].what = "collide" /\ hist[i].kind = hist[j].kind
        => hist[i].reach = hist[j].reach /\ hist[i].scatters = hist[j].scatters
Emit == Len(hist) = MaxSteps /\ hist[MaxSteps].what = "collide" => PrintT("@@" \o ToJson(hist))
=============================================================================
