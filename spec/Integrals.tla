------------------------------ MODULE Integrals ------------------------------
(* From the phase-space kernel of one reaction to the contribution it makes  *)
(* to the collision integral of the species it evolves: when it is skipped,  *)
(* what it is multiplied by and which parts it is reported in.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

CONSTANTS Wide          \* TRUE: every combination; FALSE: independent details vary together

FullKinds == {"Full", "Full_vacuum_decay"}
LossKinds == {"F_decay", "F_f_vacuum_decay"}            \* multiply the distribution
GainKinds == {"F_creation", "F_1_vacuum_decay"}
Kinds == FullKinds \cup LossKinds \cup GainKinds \cup {"F_1", "F_f"}

VARIABLE case

(* evolvedFast: the evolved species decays at once (its balance is done with branching ratios);         *)
(* parent: the decaying species of a creation (for a decay: the evolved species itself)                 *)
(* parentFast/empty: the parent decays at once / and none has been created; gone: the parent is gone    *)
(* diluted: legs whose density has dropped below the threshold; hnl: "no", "evolved", "other"           *)
(* band: temperature band, "cold" < 1 MeV <= "mid" < T_ini/15 <= "warm"; hot: T above the species' mass *)
(* copies/back: how often the evolved species takes part on the left / on the right                     *)
Skip3(c) == \/ c.type = "decay" /\ c.massless
            \/ c.type = "creation" /\ c.gone /\ (c.kind \in FullKinds \/ c.evolvedFast)
            \/ c.parentFast /\ c.empty
Free3(c) == c.type = "creation" /\ c.gone /\ ~Skip3(c)          \* the parent's empty distribution already gives zero
Skip4(c) == \/ c.type = "creation" /\ c.gone
            \/ c.type = "scattering" /\ c.diluted \cap {1, 2} # {} /\ c.diluted \cap {3, 4} # {}
            \/ c.parentFast /\ c.empty
            \/ c.type = "scattering" /\ c.hnl # "no" /\ (c.band = "cold" \/ (c.rel /\ c.band = "mid"))
            \/ c.type = "decay" /\ c.hnl = "evolved" /\ c.hot

Multiplicity(c) == IF c.hnl # "no" \/ (c.type = "creation" /\ ~(c.parentMaj /\ c.charged))
                   THEN IF c.copies = 2 /\ c.back \in {0, 1} THEN 2
                        ELSE IF c.copies = 3 /\ c.back = 0 THEN 3 ELSE 1
                   ELSE 1

(* which parts are reported: <<"pair", total, coefficient of the distribution>> or one array *)
Pair(c) == c.kind \in FullKinds \/ c.evolvedFast
K(kind) == Var("kernel." \o kind)
F == Var("f")
Scale(c) == IF c.type = "creation" /\ c.parentFast THEN Var("balance") ELSE Num(1)
InMedium(c) == << IF c.legs = 4 THEN Add(K("F_1"), Mul(F, K("F_f"))) ELSE K("Full"), K("F_f") >>
Parts(c) == IF ~c.evolvedFast /\ c.kind \in FullKinds
            THEN IF c.kind = "Full" THEN InMedium(c)
                 ELSE << IF c.legs = 4 THEN Add(K("F_1_vacuum_decay"), Mul(F, K("F_f_vacuum_decay"))) ELSE K("Full_vacuum_decay"), K("F_f_vacuum_decay") >>
            ELSE IF c.evolvedFast
            THEN IF c.kind \in LossKinds THEN << Num(0), Mul(Scale(c), K(c.kind)) >> ELSE << Mul(Scale(c), K(c.kind)), Num(0) >>
            ELSE IF c.kind \in LossKinds \cup {"F_f"} THEN << Prod(<<Scale(c), F, K(c.kind)>>) >> ELSE << Mul(Scale(c), K(c.kind)) >>

(* normalisation: phase space, Hubble rate, degrees of freedom of the evolved species, multiplicity *)
States(c) == IF c.maj THEN Var("g") ELSE Div(Var("g"), Num(2))
PerStep(c) == IF c.logstep THEN Num(1) ELSE Var("x")
Rest(c) == Div(Num(Multiplicity(c)), Mul(States(c), PerStep(c)))
Norm4(c) == Mul(Rest(c), Div(Prod(<<Num(32), Sq(Var("GF")), Pow(Div(Var("aT"), Var("a")), Num(5))>>), Prod(<<Num(64), Cube(Pi), Var("H")>>)))
Norm3(c) == Mul(Rest(c), Div(Prod(<<Var("M"), Var("a")>>), Prod(<<Var("aT"), Num(32), Pi, Var("H")>>)))
Norm30(c) == IF c.massless THEN Num(0) ELSE Mul(Rest(c), Div(Prod(<<Var("M"), Var("aT")>>), Prod(<<Var("a"), Num(8), Pi, Var("H"), Sq(Var("m1"))>>)))
(* a decay product of a fast-decaying parent appears exactly as often as the parent's branching ratio and the
   multiplicity of the product in this decay say: balance rescales the kernel so that its momentum integral is
   Multiplicity * BR * number created *)
Balance(c) == Div(Prod(<<Num(Multiplicity(c)), Var("BR"), Var("created")>>), Var("unscaled"))
Threshold == Mul(Dec("1e-10"), Cube(Div(Var("a_ini"), Num(10))))

Base3 == [legs |-> 3, diluted |-> {}, band |-> "warm", hot |-> FALSE, rel |-> FALSE, back |-> 0]
Init3 == \E type \in {"creation", "decay"}, kind \in Kinds, massless, evolvedFast, parentFast, empty, gone, maj, logstep, parentMaj, charged \in BOOLEAN,
            hnl \in {"no", "evolved", "other"}, copies \in {1, 2}:
         /\ evolvedFast => kind \in LossKinds \cup GainKinds /\ hnl # "evolved"
         /\ type = "decay" => parentFast = evolvedFast /\ ~gone /\ copies = 1 /\ parentMaj = maj
         /\ empty => parentFast
         /\ parentFast => ~gone
         /\ (type = "creation" /\ parentFast) => kind \notin FullKinds \cup {"F_1", "F_f"} \/ empty
         /\ copies = 2 => ~(evolvedFast /\ ~parentFast)
         /\ Wide \/ (logstep = (charged # maj) /\ (type = "decay" => ~charged) /\ (empty => hnl = "no"))
         /\ case = Base3 @@ [type |-> type, kind |-> kind, massless |-> massless, evolvedFast |-> evolvedFast, parentFast |-> parentFast, empty |-> empty,
                             gone |-> gone, maj |-> maj, logstep |-> logstep, parentMaj |-> parentMaj, charged |-> charged, hnl |-> hnl, copies |-> copies]
Base4 == [legs |-> 4, massless |-> FALSE]
Hot == {"no", "evolved", "other"}
Creation4 == \E kind \in Kinds, evolvedFast, parentFast, empty, gone, maj, logstep, parentMaj, charged \in BOOLEAN, hnl \in Hot, copies \in 1..3:
         /\ evolvedFast => kind \in LossKinds \cup GainKinds /\ hnl # "evolved"
         /\ empty => parentFast
         /\ parentFast => ~gone /\ (kind \notin FullKinds \cup {"F_1", "F_f"} \/ empty)
         /\ (hnl # "evolved" \/ copies = 1)
         /\ copies + (IF hnl = "other" THEN 1 ELSE 0) <= 3
         /\ Wide \/ (logstep = (charged # maj) /\ (empty => hnl = "no"))
         /\ case = Base4 @@ [type |-> "creation", kind |-> kind, evolvedFast |-> evolvedFast, parentFast |-> parentFast, empty |-> empty, gone |-> gone, maj |-> maj,
                             logstep |-> logstep, parentMaj |-> parentMaj, charged |-> charged, hnl |-> hnl, copies |-> copies, back |-> 0,
                             rel |-> FALSE, hot |-> FALSE, band |-> "warm", diluted |-> {}]
Scattering4 == \E kind \in Kinds, maj, logstep, charged, rel \in BOOLEAN, hnl \in Hot, copies \in 1..2, back \in 0..2, band \in {"cold", "mid", "warm"}:
         /\ hnl = "evolved" => copies = 1
         /\ hnl = "other" => back <= 1
         /\ hnl = "no" => ~rel /\ band = "warm"
         /\ Wide \/ (logstep = maj /\ ~charged /\ (band # "warm" => kind \in {"Full", "F_creation"} /\ copies = 1))
         /\ \E diluted \in SUBSET (1..4):
            /\ Wide \/ diluted = {} \/ (kind \in {"Full", "F_decay", "F_1"} /\ copies = 1 /\ back = 0 /\ hnl # "other" /\ ~rel /\ band = "warm")
            /\ case = Base4 @@ [type |-> "scattering", kind |-> kind, evolvedFast |-> FALSE, parentFast |-> FALSE, empty |-> FALSE, gone |-> FALSE, maj |-> maj,
                             logstep |-> logstep, parentMaj |-> maj, charged |-> charged, hnl |-> hnl, copies |-> copies, back |-> back,
                             rel |-> rel, hot |-> FALSE, band |-> band, diluted |-> diluted]
Decay4 == \E kind \in Kinds, fast, empty, maj, logstep, hot \in BOOLEAN, hnl \in Hot:
         /\ fast => kind \in LossKinds \cup GainKinds /\ hnl # "evolved"
         /\ empty => fast
         /\ hot => hnl = "evolved"
         /\ case = Base4 @@ [type |-> "decay", kind |-> kind, evolvedFast |-> fast, parentFast |-> fast, empty |-> empty, gone |-> FALSE, maj |-> maj,
                             logstep |-> logstep, parentMaj |-> maj, charged |-> FALSE, hnl |-> hnl, copies |-> 1, back |-> 0,
                             rel |-> FALSE, hot |-> hot, band |-> "warm", diluted |-> {}]
Init4 == Creation4 \/ Scattering4 \/ Decay4
Next == UNCHANGED case

Skipped == IF case.legs = 3 THEN Skip3(case) ELSE Skip4(case)

(* ---- laws *)
(* what has vanished cannot create; dilution of one side only never stops a reaction *)
GoneNeverCreates == case.legs = 4 /\ case.type = "creation" /\ case.gone => Skipped
OneSideIsNotEnough == case.legs = 4 /\ case.type = "scattering" /\ case.hnl = "no" /\ (case.diluted \cap {1, 2} = {} \/ case.diluted \cap {3, 4} = {}) => ~Skipped
ElasticOnce == case.copies = case.back => Multiplicity(case) = 1
PairsForFull == Pair(case) <=> Len(Parts(case)) = 2

Rec == [c |-> case, skip |-> Skipped, free |-> case.legs = 3 /\ Free3(case), pair |-> Pair(case), parts |-> Parts(case), medium |-> InMedium(case),
        norm |-> IF case.legs = 3 THEN Norm3(case) ELSE Norm4(case), norm0 |-> IF case.legs = 3 THEN Norm30(case) ELSE Norm4(case),
        threshold |-> Threshold, balance |-> IF case.type = "creation" /\ case.parentFast THEN Balance(case) ELSE Num(1)]
Emit == PrintT("@@" \o ToJson(Rec))
=============================================================================
