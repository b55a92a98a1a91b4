---------------------------- MODULE Scattering ----------------------------
(* Collisions between species: what one loses the others receive.            *)
(*                                                                           *)
(* Part 1, exact, on a lattice of energies: the collision integral of a      *)
(* species is the sum, over the roles it has in a reaction, of gain minus    *)
(* loss of the events in which the role has the given energy.  Whatever the  *)
(* occupations, statistics and reaction, the numbers change in the           *)
(* proportion of the reaction, energy does not change at all, and every      *)
(* event runs in the direction in which the entropy grows.                   *)
(*                                                                           *)
(* Part 2: the worlds in which the integrals of the library are compared,    *)
(* the processes they must consist of and the balance of each.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

VARIABLES rx, occ, case

(* ---- part 1 ------------------------------------------------------------ *)
Levels == 0..2
Top == 4                                        \* occupations are k / Top
Ks == {1, 3}
(* left, right: species of the roles; statistics of the species *)
Reactions == { [l |-> <<"A", "B">>, r |-> <<"A", "B">>], [l |-> <<"A", "A">>, r |-> <<"A", "A">>],
               [l |-> <<"A", "A">>, r |-> <<"B", "B">>], [l |-> <<"A", "B">>, r |-> <<"B", "B">>],
               [l |-> <<"A", "B">>, r |-> <<"C", "B">>], [l |-> <<"A">>, r |-> <<"B", "C">>],
               [l |-> <<"A">>, r |-> <<"B", "B">>],      [l |-> <<"A">>, r |-> <<"B", "C", "C">>] }
Roles(x) == DOMAIN (x.l \o x.r)
Of(x, i) == (x.l \o x.r)[i]
Side(x, i) == IF i <= Len(x.l) THEN -1 ELSE 1
Who(x) == {Of(x, i): i \in Roles(x)}
Mass(s) == CASE s = "A" -> 2 [] s = "B" -> 0 [] s = "C" -> 1
Energy(s, k) == Mass(s) + k
SumOver(S, op(_)) == FoldSet(LAMBDA a, b: op(a) + b, 0, S)
ProdOver(S, op(_)) == FoldSet(LAMBDA a, b: op(a) * b, 1, S)
Events(x) == {e \in [Roles(x) -> Levels]: SumOver(Roles(x), LAMBDA i: Side(x, i) * Energy(Of(x, i), e[i])) = 0}
Free(x, s, k) == IF rx.boson[s] THEN Top + occ[s][k] ELSE Top - occ[s][k]
(* probability of the event in the direction that empties the roles of side d *)
Rate(x, e, d) == ProdOver(Roles(x), LAMBDA i: IF Side(x, i) = d THEN occ[Of(x, i)][e[i]] ELSE Free(x, Of(x, i), e[i]))
Net(x, e) == Rate(x, e, -1) - Rate(x, e, 1)                    \* left to right
(* any weight of the events that is the same in both directions *)
Weight(x, e) == 1 + (SumOver(Roles(x), LAMBDA i: (e[i] + i) * (e[i] + i)) % 3)
Role(x, i, k) == Side(x, i) * SumOver({e \in Events(x): e[i] = k}, LAMBDA e: Weight(x, e) * Net(x, e))
Integral(x, s, k) == SumOver({i \in Roles(x): Of(x, i) = s}, LAMBDA i: Role(x, i, k))
Number(x, s) == SumOver(Levels, LAMBDA k: Integral(x, s, k))
Happens(x) == SumOver(Events(x), LAMBDA e: Weight(x, e) * Net(x, e))
Stoich(x, s) == SumOver({i \in Roles(x): Of(x, i) = s}, LAMBDA i: Side(x, i))

Numbers == occ # <<>> => \A s \in Who(rx.x): Number(rx.x, s) = Stoich(rx.x, s) * Happens(rx.x)
EnergyBalance == occ # <<>> => SumOver(Who(rx.x), LAMBDA s: SumOver(Levels, LAMBDA k: Energy(s, k) * Integral(rx.x, s, k))) = 0
(* the entropy carried per particle is log(free / occupied): an event left to right adds the log of
   Rate(-1) / Rate(1), whose sign is that of Net: their product is never negative *)
Affinity(x, e) == LET a == Rate(x, e, -1) b == Rate(x, e, 1) IN IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
Entropy == occ # <<>> => \A e \in Events(rx.x): Net(rx.x, e) * Affinity(rx.x, e) >= 0
(* with one of the roles counted once too often, or not at all, the laws fail: they are not vacuous *)
Lattice == /\ \E x \in Reactions: \E b \in [Who(x) -> BOOLEAN]: rx = [x |-> x, boson |-> b]
           /\ occ = <<>>
           /\ case = <<>>
Fill == occ = <<>> /\ occ' \in [Who(rx.x) -> [Levels -> Ks]] /\ UNCHANGED <<rx, case>>

(* ---- part 2 ------------------------------------------------------------ *)
Shapes == {"hot", "cold", "bump", "ring"}
(* occupation amp / (exp(E / T) + 1) + peak * exp(-((y - centre) / 1.6)^2), in hundredths; E, T, y in comoving MeV *)
Shape(s) == CASE s = "hot"  -> [amp |-> 50, T |-> 120, peak |-> 40, centre |-> 650]
              [] s = "cold" -> [amp |-> 20, T |-> 75,  peak |-> 60, centre |-> 50]
              [] s = "bump" -> [amp |-> 5,  T |-> 100, peak |-> 80, centre |-> 300]
              [] s = "ring" -> [amp |-> 20, T |-> 90,  peak |-> 55, centre |-> 500]
Nus == {"ne", "nm", "nt"}
NuOrder == <<"ne", "nm", "nt">>
(* T in units of 0.1 MeV: electrons relativistic or massive, muons *)
Plasma == {[lep |-> {"e"}, T |-> 10], [lep |-> {"e"}, T |-> 3], [lep |-> {"mu"}, T |-> 400], [lep |-> {"mu"}, T |-> 1000], [lep |-> {"e", "mu"}, T |-> 600], [lep |-> {}, T |-> 10]}
Active == [nus: (SUBSET Nus) \ {{}}, plasma: Plasma, heavy: {0}, th: {{}}, turn: 0..3]
(* a heavy neutrino of the given mass in units of 0.1 MeV that mixes with the flavours th *)
Heavy == [nus: {{"ne"}, {"ne", "nm"}}, plasma: {[lep |-> {"e"}, T |-> 10], [lep |-> {"e"}, T |-> 50]}, heavy: {30, 200}, th: {{"ne"}, {"nm"}}, turn: 0..3]
Worlds == {c \in Active: Cardinality(c.nus) <= 2} \cup {c \in Heavy: c.th \subseteq c.nus /\ c.heavy <= 6 * c.plasma.T}
ShapeOrder == <<"hot", "cold", "bump", "ring">>
Order(c) == SelectSeq(<<"N">> \o NuOrder \o <<"e", "mu">>, LAMBDA s: s \in c.nus \cup c.plasma.lep \cup (IF c.heavy > 0 THEN {"N"} ELSE {}))
ShapeOf(c, s) == ShapeOrder[1 + ((c.turn + CHOOSE i \in DOMAIN Order(c): Order(c)[i] = s) % 4)]

Bag(q) == [s \in {q[i]: i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q: q[i] = s})]
Process(l, r) == [l |-> l, r |-> r]
Pairs(S) == {<<a, b>> \in S \X S: (CHOOSE i \in 1..3: NuOrder[i] = a) <= (CHOOSE i \in 1..3: NuOrder[i] = b)}
Light(c) == {Process(p, p): p \in Pairs(c.nus)}
       \cup {Process(<<p[1], p[1]>>, <<p[2], p[2]>>): p \in {q \in Pairs(c.nus): q[1] # q[2]}}
       \cup {Process(<<a, a>>, <<l, l>>): a \in c.nus, l \in c.plasma.lep}
       \cup {Process(<<a, l>>, <<a, l>>): a \in c.nus, l \in c.plasma.lep}
Sterile(c) == IF c.heavy = 0 THEN {} ELSE
            {Process(<<"N", l>>, <<a, l>>): a \in c.th, l \in c.plasma.lep}
       \cup {Process(<<"N", a>>, <<l, l>>): a \in c.th, l \in c.plasma.lep}
       \cup {Process(<<"N", b>>, <<a, b>>): a \in c.th, b \in c.nus}
       \cup {Process(<<"N", a>>, <<b, b>>): a \in c.th, b \in c.nus}
Change(p, s) == Cardinality({i \in DOMAIN p.r: p.r[i] = s}) - Cardinality({i \in DOMAIN p.l: p.l[i] = s})
In(p) == {p.l[i]: i \in DOMAIN p.l} \cup {p.r[i]: i \in DOMAIN p.r}
Rec(p) == [l |-> p.l, r |-> p.r, change |-> [s \in In(p) |-> Change(p, s)]]

Charge(s) == IF s \in {"e", "mu"} THEN 1 ELSE 0
WorldInit == case \in Worlds /\ rx = <<>> /\ occ = <<>>
(* leptons are not lost: no process changes the number of fermions, and charged leptons come in pairs or stay *)
KeepsNumber == \A p \in Light(case) \cup Sterile(case): SumOver(In(p), LAMBDA s: Change(p, s)) = 0
KeepsCharge == \A p \in Light(case) \cup Sterile(case): SumOver({s \in In(p): Charge(s) = 1}, LAMBDA s: Change(p, s)) \in {-2, 0, 2}
(* neighbouring species are distorted differently: nothing is in equilibrium by accident *)
Distorted == \A i \in 1..(Len(Order(case)) - 1): ShapeOf(case, Order(case)[i]) # ShapeOf(case, Order(case)[i + 1])
Emit == case # <<>> => PrintT("@@" \o ToJson([c |-> case, species |-> [s \in {Order(case)[i]: i \in DOMAIN Order(case)} |-> Shape(ShapeOf(case, s))],
                                               processes |-> {Rec(p): p \in Light(case) \cup Sterile(case)}]))
Next == UNCHANGED <<rx, occ, case>>
=============================================================================
