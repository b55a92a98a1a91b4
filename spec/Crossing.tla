------------------------------ MODULE Crossing ------------------------------
(* From one process to every collision integral it implies.                  *)
(* Items 1..N are the particles of the process; a reaction puts the items of *)
(* a set S on the left (any non-empty proper subset) and singles out one of  *)
(* them, whose distribution the integral evolves.  An item that changed side *)
(* is crossed: it becomes its antiparticle (a Majorana particle: a plain     *)
(* particle), and its mass enters amplitudes with the opposite sign.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, LeftSize, Flags      \* number of items, how many of them come in, antiparticle patterns

Names == {"A", "B", "C", "M"}
Mass == [A |-> 10, B |-> 1, C |-> 0, M |-> 4]
Charge == [A |-> 0, B |-> 1, C |-> 2, M |-> 0]
Majorana == [A |-> FALSE, B |-> FALSE, C |-> FALSE, M |-> TRUE]

(* amplitudes of the four-particle process: K1 (pi.pj)(pk.pl) + K2 mi mj (pk.pl), order <<i, j, k, l>> *)
Ms == IF N = 4 THEN << [o |-> <<1, 3, 2, 4>>, K1 |-> 2, K2 |-> 0], [o |-> <<1, 4, 2, 3>>, K1 |-> 3, K2 |-> 0],
                       [o |-> <<3, 4, 1, 2>>, K1 |-> 0, K2 |-> 5], [o |-> <<1, 3, 2, 4>>, K1 |-> 1, K2 |-> 7] >>
      ELSE << [o |-> <<1, 2, 3>>, K1 |-> 2, K2 |-> 0], [o |-> <<1, 2, 3>>, K1 |-> 5, K2 |-> 0] >>

VARIABLE proc                     \* [sp: species of each item, anti: antiparticle of each item]
Items == 1..N
Left0 == 1..LeftSize
Init == proc \in [sp: [Items -> Names], anti: Flags]
Next == UNCHANGED proc

Crossed(S, i) == (i \in Left0) # (i \in S)
Anti(S, i) == IF Crossed(S, i) THEN (IF Majorana[proc.sp[i]] THEN FALSE ELSE ~proc.anti[i]) ELSE proc.anti[i]
RECURSIVE MassOf(_)
MassOf(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S: TRUE IN Mass[proc.sp[i]] + MassOf(S \ {i})
Possible(S) == LET Rt == Items \ S IN
  /\ Cardinality(S) = 1 => MassOf(S) > MassOf(Rt)
  /\ Cardinality(Rt) = 1 => MassOf(Rt) > MassOf(S)
Reactions == {r \in {[first |-> f, left |-> S]: f \in Items, S \in (SUBSET Items) \ {{}, Items}}:
                r.first \in r.left /\ ~Anti(r.left, r.first) /\ Possible(r.left)}
Sign(S, m) == IF Crossed(S, m.o[1]) # Crossed(S, m.o[2]) THEN 0 - 1 ELSE 1

(* ---- laws *)
RECURSIVE Net(_, _)
Net(S, T) == IF T = {} THEN 0 ELSE LET i == CHOOSE i \in T: TRUE
                                       q == Charge[proc.sp[i]]
                                   IN (IF Anti(S, i) THEN 0 - q ELSE q) + Net(S, T \ {i})
Balance(S) == Net(S, S) - Net(S, Items \ S)
ChargeConserved == \A r \in Reactions: Balance(r.left) = Balance(Left0)
OnShell == \A r \in Reactions: Cardinality(r.left) = 1 => MassOf(r.left) > MassOf(Items \ r.left)
(* every item that can be on the left as a particle in an allowed way has its integral *)
Complete == \A i \in Items: (\E S \in SUBSET Items: i \in S /\ S # Items /\ ~Anti(S, i) /\ Possible(S)) <=> (\E r \in Reactions: r.first = i)
Involution == \A S \in (SUBSET Items) \ {{}, Items}: \A m \in {Ms[i]: i \in 1..Len(Ms)}: N = 4 => Sign(S, m) = Sign(Items \ S, m)

Emit == PrintT("@@" \o ToJson([
   sp |-> proc.sp, anti |-> proc.anti,
   reactions |-> {[first |-> r.first, left |-> r.left, crossed |-> {i \in Items: Crossed(r.left, i)},
                   anti |-> {i \in Items: Anti(r.left, i)},
                   terms |-> IF N = 4 THEN [k \in 1..Len(Ms) |-> [o |-> Ms[k].o, K1 |-> Ms[k].K1, K2 |-> Sign(r.left, Ms[k]) * Ms[k].K2]]
                             ELSE Ms] : r \in Reactions}]))
=============================================================================
