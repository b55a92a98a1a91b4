------------------------------ MODULE Registry ------------------------------
(* Which universe a species lives in: the last one it was added to. Its clock  *)
(* (scale factor, temperatures) is that universe's, at once and after every    *)
(* later update of either universe.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Universes, Species, MaxSteps

VARIABLES home,     \* species -> universe whose clock it follows ("none": its own, private one)
          members,  \* universe -> species in it
          tick,     \* universe -> number of clock updates made
          hist
vars == <<home, members, tick, hist>>

Init == /\ home = [s \in Species |-> "none"]
        /\ members = [u \in Universes |-> {}]
        /\ tick = [u \in Universes |-> 0]
        /\ hist = <<>>

Note(kind, u, what) == hist' = Append(hist, [kind |-> kind, u |-> u, what |-> what, home |-> home', tick |-> tick'])

Add(u, ss) == /\ ss \cap members[u] = {}
              /\ home' = [s \in Species |-> IF s \in ss THEN u ELSE home[s]]
              /\ members' = [members EXCEPT ![u] = @ \cup ss]
              /\ UNCHANGED tick
              /\ Note("add", u, ss)
(* the clock of u advances; its species follow *)
Tick(u) == /\ members[u] # {}
           /\ tick' = [tick EXCEPT ![u] = @ + 1]
           /\ UNCHANGED <<home, members>>
           /\ Note("tick", u, {})

Next == /\ Len(hist) < MaxSteps
        /\ \E u \in Universes: Tick(u) \/ \E ss \in (SUBSET Species) \ {{}}: Add(u, ss)

OneHome == \A s \in Species: home[s] = "none" \/ s \in members[home[s]]
Kept == \A s \in Species: (home[s] = "none") <=> (\A u \in Universes: s \notin members[u])
Emit == Len(hist) = MaxSteps => PrintT("@@" \o ToJson(hist))
=============================================================================
