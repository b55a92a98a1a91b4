------------------------------ MODULE Library ------------------------------
(* The interactions of the particle library: which processes a builder       *)
(* offers for the species and mixings it is given, with which amplitude, and *)
(* which collision integrals they become.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

VARIABLE case

-----------------------------------------------------------------------------
(* species: charge in thirds, flavour, mass in keV *)
Sp(q, fl, m, maj, fast) == [q |-> q, fl |-> fl, m |-> m, maj |-> maj, fast |-> fast]
Fixed == [ ne |-> Sp(0, "electron", 0, FALSE, FALSE),  nm |-> Sp(0, "muon", 0, FALSE, FALSE),  nt |-> Sp(0, "tau", 0, FALSE, FALSE),
           e |-> Sp(0 - 3, "electron", 511, FALSE, FALSE), mu |-> Sp(0 - 3, "muon", 105658, FALSE, TRUE), tau |-> Sp(0 - 3, "tau", 1776820, FALSE, TRUE),
           u |-> Sp(2, "-", 2200, FALSE, FALSE), d |-> Sp(0 - 1, "-", 4700, FALSE, FALSE), c |-> Sp(2, "-", 1280000, FALSE, FALSE),
           s |-> Sp(0 - 1, "-", 96000, FALSE, FALSE), t |-> Sp(2, "-", 173100000, FALSE, FALSE), b |-> Sp(0 - 1, "-", 4180000, FALSE, FALSE),
           n |-> Sp(0, "-", 939565, FALSE, FALSE), p |-> Sp(3, "-", 938272, FALSE, FALSE),
           pi0 |-> Sp(0, "-", 134980, TRUE, TRUE), pi |-> Sp(0 - 3, "-", 139570, FALSE, TRUE), eta |-> Sp(0, "-", 547860, TRUE, TRUE),
           rho |-> Sp(0 - 3, "-", 775110, FALSE, TRUE), rho0 |-> Sp(0, "-", 775490, TRUE, TRUE), omega |-> Sp(0, "-", 782650, TRUE, TRUE),
           etap |-> Sp(0, "-", 957780, TRUE, TRUE), phi |-> Sp(0, "-", 1019460, TRUE, TRUE) ]
All == Fixed @@ [ K |-> Sp(0 - 3, "-", 493677, FALSE, TRUE), KL |-> Sp(0, "-", 497611, TRUE, TRUE), KS |-> Sp(0, "-", 497611, TRUE, TRUE),
                  gam |-> Sp(0, "-", 0, TRUE, FALSE), g |-> Sp(0, "-", 0, TRUE, FALSE) ]
(* number of states: spin or helicity, colour, antiparticles *)
States == [ ne |-> <<1, 1>>, nm |-> <<1, 1>>, nt |-> <<1, 1>>, e |-> <<2, 1>>, mu |-> <<2, 1>>, tau |-> <<2, 1>>, u |-> <<2, 3>>, d |-> <<2, 3>>, c |-> <<2, 3>>,
            s |-> <<2, 3>>, t |-> <<2, 3>>, b |-> <<2, 3>>, n |-> <<2, 1>>, p |-> <<2, 1>>, pi0 |-> <<1, 1>>, pi |-> <<1, 1>>, eta |-> <<1, 1>>, rho |-> <<3, 1>>,
            rho0 |-> <<3, 1>>, omega |-> <<3, 1>>, etap |-> <<1, 1>>, phi |-> <<3, 1>>, K |-> <<1, 1>>, KL |-> <<1, 1>>, KS |-> <<1, 1>>, gam |-> <<2, 1>>, g |-> <<2, 8>> ]
Dof(x) == States[x][1] * States[x][2] * (IF All[x].maj THEN 1 ELSE 2)
Fermion(x) == x \in {"ne", "nm", "nt", "e", "mu", "tau", "u", "d", "c", "s", "t", "b", "n", "p"}
InitSpecies == case \in DOMAIN All
EmitSpecies == PrintT("@@" \o ToJson([x |-> case, q |-> All[case].q, fl |-> All[case].fl, m |-> All[case].m, maj |-> All[case].maj, fast |-> All[case].fast,
                                       dof |-> Dof(case), fermion |-> Fermion(case)]))
(* heavy neutrinos: two helicities, and as many of the antiparticle if it is another one *)
SterileSpecies == [maj: BOOLEAN, m: {1, 33900, 2500000}]
InitSterile == case \in SterileSpecies
EmitSterile == PrintT("@@" \o ToJson([maj |-> case.maj, m |-> case.m, q |-> 0, dof |-> IF case.maj THEN 2 ELSE 4, fermion |-> TRUE, fast |-> FALSE]))
(* magnitudes of the mixing of quark families, in thousandths: rows and columns have unit length to their accuracy *)
CKM == << <<974, 225, 4>>, <<225, 973, 41>>, <<9, 40, 999>> >>
Unit(v) == LET s == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] IN s > 997000 /\ s < 1003000
CKMUnitary == \A i \in 1..3: Unit(CKM[i]) /\ Unit(<<CKM[1][i], CKM[2][i], CKM[3][i]>>)
InitCKM == case = CKM
EmitCKM == PrintT("@@" \o ToJson([ckm |-> case]))
Of(x, c) == IF x = "N" THEN Sp(0, "any", c.mN, c.maj, FALSE) ELSE Fixed[x]
Neutrinos == {"ne", "nm", "nt"}
Leptons == {"e", "mu", "tau"}
Ups == {"u", "c", "t"}
Downs == {"d", "s", "b"}
Flavour(x) == Fixed[x].fl
PartnerOf(l) == CHOOSE nu \in Neutrinos: Flavour(nu) = Flavour(l)
Family(x) == IF x \in {"u", "d"} THEN "1" ELSE IF x \in {"c", "s"} THEN "2" ELSE "3"
Mass(x) == Var("m_" \o x)

(* chiral couplings of a fermion to the Z: T3 - Q s2 and - Q s2 *)
s2 == Var("s2")
GR(x) == Neg(Mul(Rat(Fixed[x].q, 3), s2))
GLnc(x) == Sub(Rat(IF Fixed[x].q > 0 THEN 1 ELSE 0 - 1, 2), Mul(Rat(Fixed[x].q, 3), s2))
(* a neutrino of the lepton's own flavour also exchanges a W *)
GL(l, nu) == IF Flavour(l) = Flavour(nu) THEN Add(GLnc(l), Num(1)) ELSE GLnc(l)
Four == Num(4)
(* amplitudes in units of 32 G_F^2 (four legs): K1 (i.j)(k.l) + K2 m_i m_j (k.l) *)
A(o, k) == [o |-> o, K1 |-> k, K2 |-> Num(0)]
B(o, k) == [o |-> o, K1 |-> Num(0), K2 |-> k]
F == FALSE
T == TRUE
Proc(fam, sp, anti, left, amp, keep, mix) == [fam |-> fam, sp |-> sp, anti |-> anti, left |-> left, amp |-> amp, keep |-> keep, mix |-> mix]
Mix(fl) == Var("theta_" \o fl)

NuNu(a, b) == Proc("nunu", <<a, b, a, b>>, <<F, F, F, F>>, 2, <<A(<<1, 2, 3, 4>>, Num(1))>>, "all", "-")
(* pair annihilation of a fermion pair x xbar (items 3, 4) with y ybar (items 1, 2), left-handed y *)
Pair(gl, gr) == <<A(<<1, 4, 2, 3>>, Mul(Four, Sq(gl))), A(<<1, 3, 2, 4>>, Mul(Four, Sq(gr))), B(<<3, 4, 1, 2>>, Prod(<<Four, gl, gr>>))>>
NuLep(l, nu) == Proc("nulep", <<nu, nu, l, l>>, <<F, T, F, T>>, 2, Pair(GL(l, nu), GR(l)), "all", "-")
LepCC(l1, l2) == Proc("lepcc", <<l1, l2, PartnerOf(l1), PartnerOf(l2)>>, <<F, T, F, T>>, 2, <<A(<<1, 4, 2, 3>>, Four)>>, "all", "-")
Beta == Proc("beta", <<"n", "p", "e", "ne">>, <<F, F, F, T>>, 1, <<A(<<1, 2, 3, 4>>, Mul(Num(2), Sq(Var("CKM11"))))>>, "all", "-")

(* sterile neutrino: an active one of flavour a times the mixing angle *)
Twice(a, b) == IF a = b THEN Num(2) ELSE Num(1)
StNu1(a, b) == Proc("stnu1", <<"N", b, a, b>>, <<F, F, F, F>>, 2, <<A(<<1, 2, 3, 4>>, Twice(a, b))>>, "all", Flavour(a))
StNu2(a, b) == Proc("stnu2", <<a, b, "N", b>>, <<F, F, F, F>>, 2, <<A(<<1, 2, 3, 4>>, Twice(a, b))>>, "other", Flavour(a))
StNC(l, nu, conj) == Proc("stnc" \o (IF conj THEN "2" ELSE "1"), <<"N", nu, l, l>>, IF conj THEN <<T, F, F, T>> ELSE <<F, T, T, F>>, 2,
      <<A(<<1, 3, 2, 4>>, Mul(Four, Sq(GL(l, nu)))), A(<<1, 4, 2, 3>>, Mul(Four, Sq(GR(l)))), B(<<3, 4, 1, 2>>, Prod(<<Four, GL(l, nu), GR(l)>>))>>,
      IF Fixed[l].fast THEN (IF conj THEN "heavy2" ELSE "heavy") ELSE "all", Flavour(nu))
(* N -> l W, W -> o nu_o *)
StCC(l, o, conj) == Proc("stcc" \o (IF conj THEN "2" ELSE "1"),
      IF conj THEN <<PartnerOf(o), "N", l, o>> ELSE <<"N", PartnerOf(o), o, l>>, <<F, T, T, F>>, 2, <<A(<<1, 3, 2, 4>>, Four)>>, "opposite", Flavour(l))
QuarkNC(q, nu) == Proc("quarknc", <<"N", nu, q, q>>, <<F, T, F, T>>, 2, Pair(GLnc(q), GR(q)), "all", Flavour(nu))
QuarkCC(up, down, l) == Proc("quarkcc", <<"N", l, up, down>>, <<F, T, F, T>>, 2,
      <<A(<<1, 4, 2, 3>>, Mul(Four, Sq(Var("CKM" \o Family(up) \o Family(down)))))>>, "all", Flavour(l))

(* two-body decays N -> lepton + meson: |M|^2 as an expression in the masses *)
MN == Mass("N")
Ratio(x) == Sq(Div(Mass(x), MN))
Weak(m) == Sq(Mul(Var("GF"), Var("f_" \o m)))
Kappa(m) == CASE m = "rho0" -> Sub(Num(1), Mul(Num(2), s2)) [] m = "omega" -> Mul(Rat(4, 3), s2) [] m = "phi" -> Sub(Mul(Rat(4, 3), s2), Num(1))
Scalars0 == {"pi0", "eta", "etap"}
Vectors0 == {"rho0", "omega", "phi"}
MesonK(m, x) ==
  CASE m \in Scalars0 -> Prod(<<Weak(m), Pow(MN, Num(4)), Abs(Sub(Num(1), Ratio(m)))>>)
    [] m \in Vectors0 -> Prod(<<Weak(m), Sq(Kappa(m)), Pow(MN, Num(4)), Add(Num(1), Mul(Num(2), Ratio(m))), Sub(Num(1), Ratio(m))>>)
    [] m = "pi" -> Prod(<<Num(2), Weak(m), Sq(Var("CKM11")), Pow(MN, Num(4)), Abs(Sub(Sq(Sub(Num(1), Ratio(x))), Mul(Ratio(m), Add(Num(1), Ratio(x)))))>>)
    [] m = "rho" -> Prod(<<Num(2), Weak(m), Sq(Var("CKM11")), Pow(MN, Num(4)),
                           Sub(Add(Sq(Sub(Num(1), Ratio(x))), Mul(Ratio(m), Add(Num(1), Ratio(x)))), Mul(Num(2), Sq(Ratio(m))))>>)
Had(m, x, conj) == Proc("had" \o (IF conj THEN "2" ELSE "1"), <<"N", x, m>>,
      IF x \in Neutrinos THEN <<conj, conj, F>> ELSE <<conj, conj, ~conj>>, 1, <<[o |-> <<1, 2, 3>>, K1 |-> MesonK(m, x), K2 |-> Num(0)]>>, "all", Flavour(x))

-----------------------------------------------------------------------------
(* builders: which processes they offer *)
SMnu(nus, leps) == {NuNu(pr[1], pr[2]): pr \in {pr \in nus \X nus: pr[1] = pr[2] \/ <<pr[1], pr[2]>> \in {<<"ne", "nm">>, <<"ne", "nt">>, <<"nm", "nt">>}}}
                   \cup {NuLep(l, nu): l \in leps, nu \in nus}
SMlep(nus, leps) == {LepCC(l1, l2): l1 \in {l \in leps: PartnerOf(l) \in nus}, l2 \in {l \in leps: PartnerOf(l) \in nus}}
                    \ {LepCC(l, l): l \in Leptons}
StLep(nus, leps, th) == UNION {{StNu1(a, b), StNu2(a, b)}: a \in {a \in nus: Flavour(a) \in th}, b \in nus}
                    \cup UNION {{StNC(l, nu, F), StNC(l, nu, T)}: l \in leps, nu \in {a \in nus: Flavour(a) \in th}}
                    \cup UNION {{StCC(pr[1], pr[2], F), StCC(pr[1], pr[2], T)}:
                                pr \in {pr \in leps \X leps: pr[1] # pr[2] /\ Flavour(pr[1]) \in th /\ PartnerOf(pr[2]) \in nus}}
StQuark(nus, leps, th, qs) == {QuarkNC(q, nu): q \in qs, nu \in {a \in nus: Flavour(a) \in th}}
                    \cup {QuarkCC(up, dn, l): up \in qs \cap Ups, dn \in qs \cap Downs, l \in {l \in leps: Flavour(l) \in th}}
StHad(nus, leps, th, mes) == UNION {{Had(m, nu, F), Had(m, nu, T)}: m \in {m \in mes: Fixed[m].q = 0}, nu \in {a \in nus: Flavour(a) \in th}}
                    \cup UNION {{Had(m, l, F), Had(m, l, T)}: m \in {m \in mes: Fixed[m].q # 0}, l \in {l \in leps: Flavour(l) \in th}}

Builders == {"sm_neutrinos", "sm_leptons", "sterile_leptons", "sterile_quarks", "sterile_hadrons", "baryons"}
Offers(c) == CASE c.builder = "sm_neutrinos" -> SMnu(c.nus, c.leps)
               [] c.builder = "sm_leptons" -> IF Cardinality(c.nus) > 1 /\ Cardinality(c.leps) > 1 THEN SMlep(c.nus, c.leps) ELSE {}
               [] c.builder = "sterile_leptons" -> StLep(c.nus, c.leps, c.th)
               [] c.builder = "sterile_quarks" -> StQuark(c.nus, c.leps, c.th, c.had)
               [] c.builder = "sterile_hadrons" -> StHad(c.nus, c.leps, c.th, c.had)
               [] c.builder = "baryons" -> {Beta}
Flavours == {"electron", "muon", "tau"}
InitBuilder == \E bd \in Builders, nus \in {{"ne"}, {"ne", "nm"}, Neutrinos}, leps \in {{"e"}, {"e", "mu"}, Leptons}:
   \E th \in (IF bd \in {"sm_neutrinos", "sm_leptons", "baryons"} THEN {{}} ELSE SUBSET Flavours):
   \E had \in (IF bd = "sterile_quarks" THEN {{"u", "d"}, {"u", "d", "s"}, Ups \cup Downs} ELSE IF bd = "sterile_hadrons" THEN {{"pi0", "pi"}, {"rho0", "rho", "omega"}, {"eta", "etap", "phi", "pi"}} ELSE {{}}):
     case = [builder |-> bd, nus |-> nus, leps |-> leps, th |-> th, had |-> had]
NoMixingNoReaction == case.builder \in {"sterile_leptons", "sterile_quarks", "sterile_hadrons"} /\ case.th = {} => Offers(case) = {}
EmitBuilder == PrintT("@@" \o ToJson([c |-> case, offers |-> Offers(case)]))

-----------------------------------------------------------------------------
(* integrals of a process: as in Crossing.tla *)
Everything == SMnu(Neutrinos, Leptons) \cup SMlep(Neutrinos, Leptons) \cup {Beta}
SterileAll == StLep(Neutrinos, Leptons, Flavours) \cup StQuark(Neutrinos, Leptons, Flavours, Ups \cup Downs)
              \cup StHad(Neutrinos, Leptons, Flavours, Scalars0 \cup Vectors0 \cup {"pi", "rho"})
InitProcess == \/ \E p \in Everything: case = [p |-> p, maj |-> FALSE, mN |-> 0]
               \/ \E p \in SterileAll, maj \in BOOLEAN, mN \in {30000, 300000, 2500000}: case = [p |-> p, maj |-> maj, mN |-> mN]
Next == UNCHANGED case

Items(c) == 1..Len(c.p.sp)
Was(c) == 1..c.p.left
Crossed(c, S, i) == (i \in Was(c)) # (i \in S)
Anti(c, S, i) == IF Crossed(c, S, i) THEN (IF Of(c.p.sp[i], c).maj THEN FALSE ELSE ~c.p.anti[i]) ELSE c.p.anti[i]
RECURSIVE MassOf(_, _)
MassOf(c, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S: TRUE IN Of(c.p.sp[i], c).m + MassOf(c, S \ {i})
Possible(c, S) == LET Rt == Items(c) \ S IN
  /\ Cardinality(S) = 1 => MassOf(c, S) > MassOf(c, Rt)
  /\ Cardinality(Rt) = 1 => MassOf(c, Rt) > MassOf(c, S)
AllReactions(c) == {r \in {[first |-> f, left |-> S]: f \in Items(c), S \in (SUBSET Items(c)) \ {{}, Items(c)}}:
                r.first \in r.left /\ ~Anti(c, r.left, r.first) /\ Possible(c, r.left)}
(* the second orientation of a scattering only serves species the first one does not *)
FirstsOf(c) == {c.p.sp[r.first]: r \in AllReactions(c)}
Twin(c) == [c EXCEPT !.p = StNu1(c.p.sp[1], c.p.sp[2])]
CountLeft(c, S, x) == Cardinality({i \in S: c.p.sp[i] = x})
Keep(c, r) ==
  LET x == c.p.sp[r.first] IN
  CASE c.p.keep = "all" -> TRUE
    [] c.p.keep = "other" -> x \notin FirstsOf(Twin(c))
    [] c.p.keep = "heavy" -> x = "N" \/ CountLeft(c, r.left, c.p.sp[3]) # 1
    [] c.p.keep = "heavy2" -> x = "N" \/ (x # c.p.sp[3] /\ CountLeft(c, r.left, c.p.sp[3]) # 1)
    \* the sterile neutrino and the lepton of the spectator flavour are on opposite sides
    [] c.p.keep = "opposite" -> LET oth == IF c.p.sp[1] = "N" THEN 3 ELSE 4  N == IF c.p.sp[1] = "N" THEN 1 ELSE 2 IN (oth \in r.left) # (N \in r.left)
Kept(c) == {r \in AllReactions(c): Keep(c, r)}
Sign(c, S, a) == IF Crossed(c, S, a.o[1]) # Crossed(c, S, a.o[2]) THEN 0 - 1 ELSE 1

(* ---- laws of every library reaction *)
RECURSIVE Net(_, _, _, _)
Net(c, S, R, W) == IF R = {} THEN 0 ELSE LET i == CHOOSE i \in R: TRUE IN (IF Anti(c, S, i) THEN 0 - W[c.p.sp[i]] ELSE W[c.p.sp[i]]) + Net(c, S, R \ {i}, W)
Balanced(c, W) == \A r \in AllReactions(c): Net(c, r.left, r.left, W) = Net(c, r.left, Items(c) \ r.left, W)
Here(c) == {c.p.sp[i]: i \in Items(c)}
Charge(c) == Balanced(c, [x \in Here(c) |-> Of(x, c).q])
(* lepton flavour: N stands for the neutrino it mixes with *)
LeptonFlavour(c) == \A fl \in Flavours: ~c.maj => Balanced(c, [x \in Here(c) |-> IF x = "N" THEN (IF c.p.mix = fl THEN 1 ELSE 0) ELSE IF Of(x, c).fl = fl THEN 1 ELSE 0])
BaryonNumber(c) == Balanced(c, [x \in Here(c) |-> IF x \in Ups \cup Downs THEN 1 ELSE IF x \in {"n", "p"} THEN 3 ELSE 0])
ChargeLaw == Charge(case)
FlavourLaw == LeptonFlavour(case)
BaryonLaw == BaryonNumber(case)
(* species that decay at once are balanced separately: their creation and their decay are kept apart *)
Kind(c, r) == LET fast == Of(c.p.sp[r.first], c).fast IN
  IF ~fast \/ c.p.mix = "-" \/ c.p.fam \in {"quarknc", "quarkcc"} THEN "given"
  ELSE IF c.p.fam \in {"had1", "had2"} /\ Cardinality(r.left) = 1 THEN "F_decay" ELSE "F_creation"
EmitProcess == PrintT("@@" \o ToJson([p |-> case.p, maj |-> case.maj, mN |-> case.mN,
   reactions |-> {[first |-> r.first, left |-> r.left, kind |-> Kind(case, r), sign |-> [k \in 1..Len(case.p.amp) |-> IF Len(case.p.sp) = 4 THEN Sign(case, r.left, case.p.amp[k]) ELSE 1]]: r \in Kept(case)}]))
=============================================================================
