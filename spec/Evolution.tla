------------------------------ MODULE Evolution ------------------------------
(* The evolution loop of a universe, at the granularity of one call on one   *)
(* species or interaction.  A step is                                        *)
(*   update every species, initialise every interaction, integrate the       *)
(*   collisions of every species that has integrals, update every            *)
(*   distribution, collect every species' terms of the temperature equation, *)
(*   run the monitor, advance the plasma, record a row.                      *)
(* Inside a phase the order is free; no phase starts before the previous one *)
(* is complete.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Species, Inters, MaxSteps

Phases == <<"update", "init", "collide", "distribute", "terms", "monitor", "row">>

VARIABLES n,        \* completed steps
          ph,       \* index of the current phase
          done,     \* members of the current phase already handled
          active,   \* species with collision integrals in this step
          touched   \* phases each species went through in this step
ev == <<n, ph, done, active, touched>>

Everyone(k, ac) == CASE Phases[k] = "update" -> Species
                     [] Phases[k] = "init" -> Inters
                     [] Phases[k] = "collide" -> ac
                     [] Phases[k] = "distribute" -> Species
                     [] Phases[k] = "terms" -> Species
                     [] OTHER -> {"universe"}
(* first phase from k on that still has someone to handle *)
RECURSIVE Skip(_, _)
Skip(k, ac) == IF k > Len(Phases) THEN k ELSE IF Everyone(k, ac) = {} THEN Skip(k + 1, ac) ELSE k

Start == Skip(1, {})
EvInit == n = 0 /\ ph = Start /\ done = {} /\ active = {} /\ touched = [s \in Species |-> {}]

(* who is handled by the event, and which species it gives collision integrals to *)
Do(kind, who, gives) ==
  /\ Phases[ph] = kind
  /\ who \in Everyone(ph, active) \ done
  /\ LET ac == active \cup gives
         d == done \cup {who}
         full == d = Everyone(ph, ac)
         nxt == IF full THEN Skip(ph + 1, ac) ELSE ph
     IN /\ IF nxt > Len(Phases)
           THEN /\ n' = n + 1 /\ ph' = Start /\ done' = {} /\ active' = {} /\ touched' = [s \in Species |-> {}]
           ELSE /\ n' = n /\ ph' = nxt /\ done' = (IF full THEN {} ELSE d) /\ active' = ac
                /\ touched' = IF who \in Species THEN [touched EXCEPT ![who] = @ \cup {kind}] ELSE touched

EvNext == /\ n < MaxSteps
          /\ \E k \in {Phases[i]: i \in 1..Len(Phases)}: \E w \in Species \cup Inters \cup {"universe"}:
               IF k = "init" THEN \E g \in SUBSET Species: Do(k, w, g) ELSE Do(k, w, {})
EvSpec == EvInit /\ [][EvNext]_ev /\ WF_ev(EvNext)

(* ---- properties of the protocol *)
TypeOK == ph \in 1..Len(Phases) /\ done \subseteq Everyone(ph, active)
(* collisions see species of this step only, and every distribution moves before any temperature term is collected *)
FreshInputs == Phases[ph] \in {"init", "collide", "distribute", "terms", "monitor", "row"} => \A s \in Species: "update" \in touched[s]
CollisionsFirst == Phases[ph] \in {"distribute", "terms", "monitor", "row"} => \A s \in active: "collide" \in touched[s]
MovedFirst == Phases[ph] \in {"terms", "monitor", "row"} => \A s \in Species: "distribute" \in touched[s]
OnlyActive == \A s \in Species: "collide" \in touched[s] => s \in active
Terminates == <>(n = MaxSteps)
=============================================================================
