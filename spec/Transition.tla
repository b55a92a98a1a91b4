----------------------------- MODULE Transition -----------------------------
(* The transition of the quark-gluon plasma into hadrons at fixed scale      *)
(* factor: quarks and gluons give way to the hadrons, the comoving entropy   *)
(* of the relativistic plasma is conserved, the interactions of quarks give  *)
(* way to those of hadrons, and the record goes on from the state before.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, Rationals

CONSTANTS MaxHadrons, MaxQuarks
VARIABLE case

(* name, mass (MeV), internal degrees of freedom, statistics, always in equilibrium? *)
S(n, m, g, f, eq) == [name |-> n, m |-> m, g |-> g, f |-> f, eq |-> eq]
Quarks == {S("Up quark", 2, 12, TRUE, TRUE), S("Down quark", 5, 12, TRUE, TRUE), S("Strange quark", 95, 12, TRUE, TRUE),
           S("Charm quark", 1275, 12, TRUE, TRUE), S("Bottom quark", 4180, 12, TRUE, TRUE), S("Top quark", 172440, 12, TRUE, TRUE), S("Gluon", 0, 16, FALSE, TRUE)}
Hadrons == {S("Neutral pion", 135, 1, FALSE, TRUE), S("Charged pion", 140, 2, FALSE, TRUE), S("Eta", 548, 1, FALSE, TRUE),
            S("Decoupled meson", 100, 3, FALSE, FALSE), S("Neutron", 940, 4, TRUE, TRUE)}
Rest == {S("Photon", 0, 2, FALSE, TRUE), S("Electron", 1, 4, TRUE, TRUE), S("Muon", 106, 4, TRUE, TRUE),
         S("Electron neutrino", 0, 2, TRUE, TRUE), S("Sterile neutrino", 0, 4, TRUE, FALSE), S("Tau", 1777, 4, TRUE, TRUE)}
Always == {s \in Rest: s.name \in {"Photon", "Electron neutrino"}}

(* relativistic species of the plasma at temperature T *)
DofOf(s, T) == IF T > s.m /\ s.eq THEN (IF s.f THEN RNorm(7 * s.g, 8) ELSE R(s.g)) ELSE R(0)
RECURSIVE Dof(_, _)
Dof(X, T) == IF X = {} THEN R(0) ELSE LET s == CHOOSE x \in X: TRUE IN RAdd(DofOf(s, T), Dof(X \ {s}, T))
Kept(c) == c.rest \cup Always
BeforeQ(c) == c.quarks \cup Kept(c)
AfterQ(c) == c.hadrons \cup Kept(c)
Ratio(c) == RDiv(Dof(BeforeQ(c), c.T), Dof(AfterQ(c), c.T))     \* (aT_after / aT_before)^3
Names == {s.name: s \in Quarks \cup Hadrons \cup Rest}
(* heaviest first; the order among species of one mass is free *)
Inters == [old: {<<"q1", "l", "q2">>, <<"q1">>, <<"l">>}, gone: {<<>>, <<"q1">>, <<"q1", "q2">>}, new: {<<>>, <<"h">>, <<"h", "g">>}, more: {<<>>, <<"s">>}]
After(i) == SelectSeq(i.old, LAMBDA x: ~\E k \in DOMAIN i.gone: i.gone[k] = x) \o i.new \o i.more

Init == \E q \in SUBSET Quarks, h \in SUBSET Hadrons, r \in SUBSET (Rest \ Always), T \in {90, 150, 2000}, i \in Inters, n \in {1, 3}:
          /\ Cardinality(q) \in 1..MaxQuarks \cup {7} /\ Cardinality(h) <= MaxHadrons /\ Cardinality(r) <= 2
          /\ \A k \in DOMAIN i.gone: \E j \in DOMAIN i.old: i.old[j] = i.gone[k]
          (* the interactions and the record do not depend on the species: explored with few of them *)
          /\ (i = [old |-> <<"l">>, gone |-> <<>>, new |-> <<>>, more |-> <<>>] /\ n = 1) \/ (Cardinality(q) = 1 /\ Cardinality(h) = 1 /\ r = {} /\ T = 150)
          /\ case = [quarks |-> q, hadrons |-> h, rest |-> r, T |-> T, inters |-> i, steps |-> n]
Next == UNCHANGED case
(* laws *)
NoQuarks == AfterQ(case) \cap Quarks = {} /\ Kept(case) \subseteq AfterQ(case)
Entropy == RMul(Dof(AfterQ(case), case.T), Ratio(case)) = Dof(BeforeQ(case), case.T)
Heats == RLe(Dof(AfterQ(case), case.T), Dof(BeforeQ(case), case.T)) => RLe(R(1), Ratio(case))
Interactions == \A k \in DOMAIN After(case.inters): ~\E j \in DOMAIN case.inters.gone: case.inters.gone[j] = After(case.inters)[k]
Emit == PrintT("@@" \o ToJson([T |-> case.T, quarks |-> case.quarks, hadrons |-> case.hadrons, rest |-> Kept(case), inters |-> case.inters, steps |-> case.steps,
          ratio |-> Ratio(case), species |-> {s.name: s \in AfterQ(case)}, list |-> After(case.inters)]))
=============================================================================
