------------------------------ MODULE Balance ------------------------------
(* What decays is what is created: for every decay, summed over the spectra,  *)
(* the creation integrals of the products and the decay integral of the       *)
(* parent describe the same events, in number and in energy.                  *)
EXTENDS Cascade, SequencesExt

(* decays of a heavy neutrino of mass c.mN (keV) that mixes with the flavours c.th *)
Mixing(x, c) == Flavour(x) \in c.th
Charged(x) == Fixed[x].q # 0
NCase(mN, th, maj, spectrum) == [mN |-> mN, th |-> th, maj |-> maj, spectrum |-> spectrum]
Lep == {"e", "mu"}
Light == {"pi0", "pi", "eta", "rho", "rho0", "omega", "phi"}
Raw(c) == {<<a, b, b>>: a \in {n \in Neutrinos: Mixing(n, c)}, b \in Neutrinos}
     \cup {<<a, l, l>>: a \in {n \in Neutrinos: Mixing(n, c)}, l \in Lep}
     \cup {<<l1, l2, PartnerOf(l2)>>: l1 \in {l \in Lep: Mixing(l, c)}, l2 \in Lep}
     \cup {<<a, x>>: a \in {n \in Neutrinos: Mixing(n, c)}, x \in {y \in Light: ~Charged(y)} \ {"eta"}}
     \cup {<<l, x>>: l \in {y \in Lep: Mixing(y, c)}, x \in {"pi", "rho"}}
Total(o) == SumI(LAMBDA j: Fixed[o[j]].m, Len(o))
Count(o, y) == SumI(LAMBDA j: IF o[j] = y THEN 1 ELSE 0, Len(o))
Content(o) == [y \in {o[j]: j \in DOMAIN o} |-> Count(o, y)]
Open(c) == {Content(o): o \in {r \in Raw(c): Total(r) < c.mN}}
Content2(o) == [y \in {o[j][1]: j \in DOMAIN o} |-> Count([j \in DOMAIN o |-> o[j][1]], y)]

Spectra == {"cold", "warm", "fast"}
Big == {20000, 130000, 160000, 300000, 700000, 1100000}
Ths == {{"electron"}, {"muon"}, {"tau"}, {"electron", "muon"}}
InitN == /\ \E mN \in Big, th \in Ths, maj \in BOOLEAN, sp \in Spectra:
            /\ sp = "warm" \/ (~maj /\ Cardinality(th) = 1)
            /\ case = NCase(mN, th, maj, sp)
         /\ prim = {} /\ given = FALSE /\ pending = {} /\ done = {} /\ listed = {}
InitX == /\ case \in [x: Unstable, spectrum: Spectra]
         /\ prim = {} /\ given = FALSE /\ pending = {} /\ done = {} /\ listed = {}

(* per channel: decays = - total over the decay integrals of the parent; created.y the same of the creation integrals of y *)
Created(n, y) == Div(Var("created_" \o y), Mul(Num(n[y]), Var("decays")))        \* = 1
RECURSIVE SumT(_, _)
SumT(n, S) == IF S = {} THEN Num(0) ELSE LET y == CHOOSE y \in S: TRUE IN
                Add(Mul(Num(n[y]), Div(Var("energy_" \o y), Var("created_" \o y))), SumT(n, S \ {y}))
Energy(n) == Div(SumT(n, DOMAIN n), Div(Var("energy"), Var("decays")))           \* = 1
Rec(n) == [n |-> n, number |-> [y \in DOMAIN n |-> Created(n, y)], energy |-> Energy(n)]
EmitN == PrintT("@@" \o ToJson([c |-> case, channels |-> {Rec(n): n \in Open(case)}]))
(* instant decays: whatever is produced of x (counted per charge state) turns into products at once, in the proportion
   of the branching ratios; created.y sums over the charge states of y *)
Share(x, i, y) == LET k == Number(<<x, i>>, y) IN Prod(<<Dec(Decays[x][i].br), Div(Num(k[1] * States1(y)), Num(k[2]))>>)
RecX(x, i) == LET n == Content2(Decays[x][i].out) IN
              [n |-> n, number |-> [y \in DOMAIN n |-> Div(Var("created_" \o y), Mul(Share(x, i, y), Var("produced")))], energy |-> Energy(n)]
(* what remains of the produced: the channels that are not listed *)
Remains(x) == Sub(Var("net"), Mul(Sub(Num(1), Sum([i \in DOMAIN Decays[x] |-> Dec(Decays[x][i].br)])), Var("produced")))      \* = 0
EmitX == PrintT("@@" \o ToJson([c |-> case, remains |-> Remains(case.x), channels |-> {RecX(case.x, i): i \in DOMAIN Decays[case.x]}]))
(* every open channel is a decay of a neutral fermion into an odd number of fermions with charge zero possible *)
OddFermions == case \notin [x: Unstable, spectrum: Spectra] => \A n \in Open(case):
     SumI(LAMBDA j: IF Fermion(SetToSeq(DOMAIN n)[j]) THEN n[SetToSeq(DOMAIN n)[j]] ELSE 0, Cardinality(DOMAIN n)) % 2 = 1
=============================================================================
