------------------------------ MODULE Cascade ------------------------------
(* Decays of the short-lived products of heavy neutrinos: everything that is  *)
(* produced and unstable decays in turn, each of its channels listed once,    *)
(* whatever the order in which the products are named.                        *)
EXTENDS Library

VARIABLES prim,     \* unstable species the primary interactions produce
          given,    \* decays of muons are given elsewhere
          pending, done, listed
cvars == <<case, prim, given, pending, done, listed>>

Ch(br, out) == [br |-> br, out |-> out]
Pt(x) == <<x, 1>>       \* the particle ...
An(x) == <<x, 0 - 1>>   \* ... and its antiparticle
Decays ==
 [ mu |-> << Ch("1", <<Pt("e"), An("ne"), Pt("nm")>>) >>,
   pi |-> << Ch("0.999877", <<Pt("mu"), An("nm")>>) >>,
   pi0 |-> << Ch("0.98823", <<Pt("gam"), Pt("gam")>>) >>,
   K |-> << Ch("0.0507", <<Pt("pi0"), Pt("e"), An("ne")>>), Ch("0.05583", <<An("pi"), Pt("pi"), Pt("pi")>>),
            Ch("0.6356", <<Pt("mu"), An("nm")>>), Ch("0.2067", <<Pt("pi"), Pt("pi0")>>) >>,
   KL |-> << Ch("0.4055", <<An("pi"), Pt("e"), An("ne")>>), Ch("0.2704", <<An("pi"), Pt("mu"), An("nm")>>),
             Ch("0.1952", <<Pt("pi0"), Pt("pi0"), Pt("pi0")>>), Ch("0.1254", <<Pt("pi"), An("pi"), Pt("pi0")>>) >>,
   KS |-> << Ch("0.6920", <<Pt("pi"), An("pi")>>), Ch("0.3069", <<Pt("pi0"), Pt("pi0")>>) >>,
   eta |-> << Ch("0.3941", <<Pt("gam"), Pt("gam")>>), Ch("0.3268", <<Pt("pi0"), Pt("pi0"), Pt("pi0")>>),
              Ch("0.2292", <<Pt("pi"), An("pi"), Pt("pi0")>>), Ch("0.0422", <<Pt("pi"), An("pi"), Pt("gam")>>) >>,
   rho |-> << Ch("1", <<Pt("pi"), Pt("pi0")>>) >>,
   rho0 |-> << Ch("1", <<Pt("pi"), An("pi")>>) >>,
   omega |-> << Ch("0.892", <<Pt("pi"), An("pi"), Pt("pi0")>>), Ch("0.0840", <<Pt("pi0"), Pt("gam")>>) >>,
   etap |-> << Ch("0.426", <<Pt("pi"), An("pi"), Pt("eta")>>), Ch("0.289", <<Pt("rho0"), Pt("gam")>>), Ch("0.228", <<Pt("pi0"), Pt("pi0"), Pt("eta")>>) >>,
   phi |-> << Ch("0.489", <<Pt("K"), An("K")>>), Ch("0.342", <<Pt("KL"), Pt("KS")>>), Ch("0.1532", <<Pt("rho0"), Pt("pi0")>>) >> ]
(* the branching ratios in units of 1e-6 *)
Micro == [ mu |-> <<1000000>>, pi |-> <<999877>>, pi0 |-> <<988230>>, K |-> <<50700, 55830, 635600, 206700>>, KL |-> <<405500, 270400, 195200, 125400>>,
           KS |-> <<692000, 306900>>, eta |-> <<394100, 326800, 229200, 42200>>, rho |-> <<1000000>>, rho0 |-> <<1000000>>, omega |-> <<892000, 84000>>,
           etap |-> <<426000, 289000, 228000>>, phi |-> <<489000, 342000, 153200>> ]
Unstable == DOMAIN Decays
Mesons == Unstable \ {"mu"}
Channels == UNION {{<<x, i>>: i \in DOMAIN Decays[x]}: x \in Unstable}
Out(c) == Decays[c[1]][c[2]].out
Produced(x) == {o[1]: o \in UNION {{Out(<<x, i>>)[j]: j \in DOMAIN Out(<<x, i>>)}: i \in DOMAIN Decays[x]}}

(* ---- laws of the table *)
RECURSIVE SumI(_, _)
SumI(op(_), n) == IF n = 0 THEN 0 ELSE op(n) + SumI(op, n - 1)
ASSUME ChannelCharge == \A c \in Channels: All[c[1]].q = SumI(LAMBDA j: Out(c)[j][2] * All[Out(c)[j][1]].q, Len(Out(c)))
ASSUME ChannelAllowed == \A c \in Channels: All[c[1]].m > SumI(LAMBDA j: All[Out(c)[j][1]].m, Len(Out(c)))
LeptonNumber(fl, o) == IF All[o[1]].fl = fl THEN o[2] ELSE 0
ASSUME ChannelFlavour == \A c \in Channels, fl \in {"electron", "muon", "tau"}:
          LeptonNumber(fl, Pt(c[1])) = SumI(LAMBDA j: LeptonNumber(fl, Out(c)[j]), Len(Out(c)))
ASSUME AtMostOne == \A x \in Unstable: LET s == SumI(LAMBDA j: Micro[x][j], Len(Micro[x])) IN s <= 1000000 /\ s > 900000
ASSUME Fast == \A x \in Unstable: All[x].fast

(* particles of kind y which the decays of one x and, when there is one, of its antiparticle
   create in total, shared by the charge states of y *)
States1(x) == IF All[x].maj THEN 1 ELSE 2
Number(c, y) == <<SumI(LAMBDA j: IF Out(c)[j][1] = y THEN 1 ELSE 0, Len(Out(c))) * States1(c[1]), States1(y)>>

-----------------------------------------------------------------------------
(* the squared amplitude of a channel reproduces its partial width: summed over the spin states of the
   parent, identical products counted once *)
SpinStates(x) == States[x][1]
m2(x) == Sq(Mass(x))
TwoBody(x, a, b, amp) ==
   LET p2 == Div(Mul(Sub(m2(x), Sq(Add(Mass(a), Mass(b)))), Sub(m2(x), Sq(Sub(Mass(a), Mass(b))))), Mul(Num(4), m2(x)))
   IN Div(Mul(amp, Sqrt(p2)), Prod(<<Num(8), Pi, m2(x)>>))
(* constant amplitude: area of the Dalitz plot, over the invariant mass w of the first pair *)
ThreeBody(x, a, b, d, amp) ==
   LET w == Var("w")
       E2 == Div(Add(Sub(Sq(w), m2(a)), m2(b)), Mul(Num(2), w))
       E3 == Div(Sub(Sub(m2(x), Sq(w)), m2(d)), Mul(Num(2), w))
       area == Integral("w", Prod(<<Num(8), w, Sqrt(Max2(Sub(Sq(E2), m2(b)), Num(0))), Sqrt(Max2(Sub(Sq(E3), m2(d)), Num(0)))>>), Add(Mass(a), Mass(b)), Sub(Mass(x), Mass(d)))
   IN Div(Mul(amp, area), Prod(<<Num(256), Cube(Pi), Cube(Mass(x))>>))
(* muon decay: 128 GF^2 (p_mu . p_ne)(p_e . p_nm), massless products *)
MuonWidth(amp) == Div(Prod(<<Div(amp, Num(64)), Pow(Mass("mu"), Num(5))>>), Prod(<<Num(192), Cube(Pi)>>))
Width(c) == LET x == c[1]
                o == Out(c)
            IN IF x = "mu" THEN MuonWidth(Var("amp")) ELSE
               IF Len(o) = 2 THEN TwoBody(x, o[1][1], o[2][1], Var("amp")) ELSE ThreeBody(x, o[1][1], o[2][1], o[3][1], Var("amp"))
InitChannel == /\ case \in Channels /\ prim = {} /\ given = FALSE /\ pending = {} /\ done = {} /\ listed = {}
EmitChannel == PrintT("@@" \o ToJson([x |-> case[1], i |-> case[2], out |-> Out(case), br |-> Decays[case[1]][case[2]].br, width |-> Width(case), spins |-> SpinStates(case[1]),
                                      number |-> [y \in {Out(case)[j][1]: j \in DOMAIN Out(case)} |-> Number(case, y)]]))
NextChannel == UNCHANGED cvars

-----------------------------------------------------------------------------
RECURSIVE Least(_)
Least(S) == LET more == S \cup UNION {Produced(x) \cap Unstable: x \in S} IN IF more = S THEN S ELSE Least(more)
Lists(x) == IF x = "mu" /\ given THEN {} ELSE {<<x, i>>: i \in DOMAIN Decays[x]}

CONSTANT MaxPrimaries
Init0 == /\ case = "-"
         /\ prim \in {S \in SUBSET Unstable: S # {} /\ Cardinality(S) <= MaxPrimaries} /\ given \in BOOLEAN
         /\ pending = prim /\ done = {} /\ listed = {}
Decay(x) == /\ x \in pending
            /\ listed' = listed \cup {<<c, Cardinality({d \in listed: d[1] = c}) + 1>>: c \in Lists(x)}
            /\ done' = done \cup {x}
            /\ pending' = (pending \cup (Produced(x) \cap Unstable)) \ (done \cup {x})
            /\ UNCHANGED <<case, prim, given>>
Next0 == \E x \in Unstable: Decay(x)
Spec0 == Init0 /\ [][Next0]_cvars /\ WF_cvars(Next0)

Stable == pending = {}
Once == \A e \in listed: e[2] = 1                              \* no channel twice
OnlyWhatOccurs == done \cup pending \subseteq Least(prim)
Complete == Stable => done = Least(prim) /\ listed = {<<c, 1>>: c \in UNION {Lists(x): x \in Least(prim)}}
Ends == <>Stable
EmitCascade == Stable => PrintT("@@" \o ToJson([prim |-> prim, given |-> given, species |-> done, channels |-> {e[1]: e \in listed}]))
=============================================================================
