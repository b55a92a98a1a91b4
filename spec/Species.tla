------------------------------- MODULE Species -------------------------------
(* The life of a particle species: it follows the plasma while in thermal    *)
(* equilibrium, decouples once, and from then on keeps the comoving          *)
(* temperature and the distribution it decoupled with.  Dyadic numbers       *)
(* (temperatures, masses) keep the comparison with floating point exact.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS T0,          \* plasma temperature at the start (a = 1, aT = T0)
          Masses, Decouplings, Factor,   \* Factor: regime switching factor
          Growth,      \* possible growths of the scale factor per step
          ATs,         \* possible comoving temperatures of the plasma (entropy release changes it)
          MaxSteps

VARIABLES cfg,         \* mass, decoupling temperature, thermal?, charged?
          a, aT, t,    \* plasma
          paT,         \* comoving temperature of the species
          tdec,        \* time it decoupled (0: not during the evolution)
          frozen,      \* <<a, aT>> its distribution was fixed at (<<>>: still in equilibrium; "none": never populated)
          rows, hist

vars == <<cfg, a, aT, t, paT, tdec, frozen, rows, hist>>

(* temperature of the species is paT / a; comparisons by cross multiplication *)
InEq(pat, aa) == cfg.thermal /\ pat > cfg.dec * aa
Regime(pat, aa) == IF ~InEq(pat, aa) THEN "non-equilibrium"
                   ELSE IF pat > cfg.mass * Factor * aa THEN "radiation"
                   ELSE IF pat * Factor < cfg.mass * aa THEN "dust"
                   ELSE "intermediate"
Obs(pat, aa, td, fr) == [a |-> aa, eq |-> InEq(pat, aa), regime |-> Regime(pat, aa), paT |-> pat, tdec |-> td, frozen |-> fr]

Init ==
  /\ cfg \in [mass: Masses, dec: Decouplings, thermal: BOOLEAN, charged: BOOLEAN]
  /\ cfg.thermal => ~cfg.charged              \* charge matters for species that never were in equilibrium only
  /\ a = 1 /\ aT = T0 /\ t = 0 /\ paT = T0 /\ tdec = 0
  /\ frozen = IF ~cfg.thermal THEN <<0, 0>> ELSE IF InEq(T0, 1) THEN <<>> ELSE <<1, T0>>
  /\ rows = 1
  /\ hist = <<Obs(T0, 1, 0, frozen)>>

Step(k, at) ==
  LET aa == a * k
      was == InEq(paT, a)
      pat == IF was \/ (~cfg.thermal /\ cfg.charged) THEN at ELSE paT
      now == InEq(pat, aa)
      fr == IF was /\ ~now THEN <<aa, pat>> ELSE frozen
      td == IF was /\ ~now THEN t + 1 ELSE tdec
  IN /\ Len(hist) <= MaxSteps
     /\ a' = aa /\ aT' = at /\ t' = t + 1 /\ paT' = pat /\ tdec' = td /\ frozen' = fr /\ rows' = rows + 1
     /\ hist' = Append(hist, [Obs(pat, aa, td, fr) EXCEPT !.a = aa] @@ [aT |-> at])
     /\ UNCHANGED cfg
Next == \E k \in Growth, at \in ATs: Step(k, at)
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Plasma == InEq(paT, a) => paT = aT                                     \* equilibrium: the temperature of the plasma
NeverBack == [][~InEq(paT, a) => ~InEq(paT', a')]_vars                 \* decoupling is final (a grows)
Free == [][~InEq(paT, a) /\ ~cfg.charged => paT' = paT /\ frozen' = frozen]_vars   \* free streaming: comoving T and f constant
FrozenOnce == frozen # <<>> <=> ~InEq(paT, a)
Massless == cfg.mass = 0 => Regime(paT, a) \in {"radiation", "non-equilibrium"}
Cooling == \A i, j \in 1..Len(hist): i < j /\ hist[i].regime = "dust" /\ hist[j].eq /\ hist[j].paT <= hist[i].paT => hist[j].regime = "dust"
Emit == Len(hist) = MaxSteps + 1 => PrintT("@@" \o ToJson([cfg |-> cfg, hist |-> hist]))
=============================================================================
