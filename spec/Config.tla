------------------------------- MODULE Config -------------------------------
(* Run-time settings: each documented setting has a default, and the process *)
(* environment overrides it for as long as (and exactly while) the variable  *)
(* is set.  Words are kept abstract: `canon' is what a word means.           *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets

CONSTANTS MaxOps, Names

(* documented settings: name -> <<type, default>> (defaults as decimal text) *)
Settings == [
  SPLIT_COLLISION_INTEGRAL |-> <<"bool", "True">>,
  FIXED_ORDER_1D_QUADRATURE |-> <<"bool", "True">>,
  GAUSS_LEGENDRE_ORDER |-> <<"int", "100">>,
  GAUSS_LAGUERRE_ORDER |-> <<"int", "100">>,
  LOGARITHMIC_TIMESTEP |-> <<"bool", "True">>,
  ADAMS_BASHFORTH_TEMPERATURE_CORRECTION |-> <<"bool", "True">>,
  ADAMS_MOULTON_DISTRIBUTION_CORRECTION |-> <<"bool", "False">>,
  MOMENTUM_SAMPLES |-> <<"int", "401">>,
  MAX_MOMENTUM_MEV |-> <<"int", "100">>,
  MAX_SCALE_FACTOR |-> <<"int", "10">>,
  FOUR_PARTICLE_GRID_RESOLUTION |-> <<"float", "0.24999">>,
  NORMAL_HIERARCHY_NEUTRINOS |-> <<"bool", "True">>,
  REGIME_SWITCHING_FACTOR |-> <<"float", "1e3">>,
  SIMPSONS_INTEGRATION |-> <<"bool", "False">>,
  SIMPSONS_NONEQ_PARTICLES |-> <<"bool", "True">>,
  LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES |-> <<"bool", "True">>,
  HNL_ENERGY |-> <<"none", "None">>,          \* set at run time, no default
  Relativistic_decoupling |-> <<"none", "None">>,
  STERILE_DECAYED |-> <<"none", "None">>
]

Off == {"0", "false", "False", "FALSE", "f", "no", "off", " false ", ""}
On  == {"1", "true", "True", "TRUE", "t", "yes", "on", "2"}
IntWords == {"7", "250", "1", "33"}
FloatWords == {"0.5", "12", "1e2", "3.25"}
Raw == {"word", "3.5"}

WordsFor(type) == CASE type = "bool"  -> Off \cup On
                    [] type = "int"   -> IntWords \cup {"nonsense"}
                    [] type = "float" -> FloatWords \cup {"nonsense"}
                    [] type = "none"  -> Raw

(* reading a setting: <<kind, text>>; "error" = the reader is told (ValueError) *)
Read(name, env) ==
  LET type == Settings[name][1]
      dflt == Settings[name][2]
  IN IF name \notin DOMAIN env THEN <<type, dflt>>
     ELSE LET w == env[name]
          IN CASE type = "bool"  -> <<"bool", IF w \in Off THEN "False" ELSE "True">>
               [] type = "none"  -> <<"raw", w>>
               [] w = "nonsense" -> <<"error", w>>
               [] OTHER          -> <<type, w>>

VARIABLES env, hist
vars == <<env, hist>>

Empty == [n \in {} |-> ""]
Init == env = Empty /\ hist = <<>>

Set(n, w) == /\ env' = [m \in DOMAIN env \cup {n} |-> IF m = n THEN w ELSE env[m]]
             /\ hist' = Append(hist, <<"set", n, w>>)
Unset(n) == /\ n \in DOMAIN env
            /\ env' = [m \in DOMAIN env \ {n} |-> env[m]]
            /\ hist' = Append(hist, <<"unset", n, "">>)
Next == /\ Len(hist) < MaxOps
        /\ \E n \in Names: Unset(n) \/ \E w \in WordsFor(Settings[n][1]): Set(n, w)

(* a setting depends on its own variable only, and is back to its default once that is gone *)
Independent == \A n \in Names: Read(n, env) = Read(n, [m \in DOMAIN env \cap {n} |-> env[m]])
Restored == \A n \in Names: n \notin DOMAIN env => Read(n, env) = Settings[n]
Decided == \A n \in Names: Settings[n][1] = "bool" => Read(n, env)[2] \in {"True", "False"}

(* boolean switches read with an explicit default (getboolenv) *)
SwitchOff == {"false", "False", "FALSE", "f", "F", "0", "-1"}
SwitchOn == {"true", "True", "1", "yes", "t"}
SwitchCases == {<<w, d>>: w \in SwitchOff \cup SwitchOn \cup {"<unset>"}, d \in {"True", "False", "None"}}
Switch(w, d) == IF w = "<unset>" THEN d = "True" ELSE w \notin SwitchOff

Emit == (Len(hist) > 0) => PrintT("@@" \o ToJson(
          [hist |-> hist, want |-> [n \in Names |-> Read(n, env)]]))
EmitAll == (Len(hist) = 0) => /\ \A c \in SwitchCases: PrintT("@@" \o ToJson([switch |-> c, want |-> Switch(c[1], c[2])]))
                              /\ PrintT("@@" \o ToJson([defaults |-> Settings]))
=============================================================================
