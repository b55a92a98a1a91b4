------------------------------- MODULE Output -------------------------------
(* What a run writes down: the table of the evolution, the table of the      *)
(* nuclear rates, the input file of the nucleosynthesis code, the log and    *)
(* the files in the output folder, over one or several runs of one universe, *)
(* which may end in an interruption.  Time is counted in steps n; the plasma *)
(* is at or below the temperature of nucleosynthesis from step Bbn on.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Terms

CONSTANTS MaxN, MaxRuns, Freqs
VARIABLES conf, calls, crash, n, step, rows, krows, evo, kaw, s4, shown, phase, res, hist
vars == <<conf, calls, crash, n, step, rows, krows, evo, kaw, s4, shown, phase, res, hist>>

Confs == [folder: BOOLEAN, kawano: BOOLEAN, freq: Freqs, chatty: BOOLEAN, bbn: {0, 2, 4, 99}]
(* runs: up to step `to`, the last one exporting or not; crash: step of the interruption, 0 for none *)
Runs == {<<[to |-> a, export |-> x]>>: a \in 0..MaxN, x \in BOOLEAN}
   \cup (IF MaxRuns < 2 THEN {} ELSE {<<[to |-> p[1], export |-> FALSE], [to |-> p[2], export |-> x]>>: p \in {q \in (1..MaxN) \X (1..MaxN): q[1] <= q[2]}, x \in BOOLEAN})
Absent == 0 - 1
Init == /\ conf \in {c \in Confs: c.kawano \/ c.bbn = 99}
        /\ calls \in Runs
        /\ crash \in {0} \cup {k \in 1..calls[Len(calls)].to: k > (IF Len(calls) = 2 THEN calls[1].to ELSE 0)}
        /\ crash = 0 \/ (conf.folder /\ conf.chatty)
        /\ n = 0 /\ step = 1 /\ rows = << >> /\ krows = << >> /\ shown = << >>
        /\ evo = Absent /\ kaw = Absent /\ s4 = (IF conf.folder /\ conf.kawano THEN 0 ELSE Absent)
        /\ phase = "idle" /\ res = "none" /\ hist = << >>

Note(a) == hist' = Append(hist, [a |-> a, n |-> n', step |-> step', rows |-> rows', krows |-> krows', evo |-> evo', kaw |-> kaw', s4 |-> s4', shown |-> shown', res |-> res',
                             export |-> calls # << >> /\ Head(calls).export])
Speaks == conf.chatty \/ n = 0           \* a throttled log is silent after the first step

(* a run begins: the present state is the first row *)
Begin == /\ phase = "idle" /\ calls # << >>
         /\ rows' = Append(rows, n) /\ phase' = "running"
         /\ UNCHANGED <<conf, calls, crash, n, step, krows, evo, kaw, s4, shown, res>>
         /\ Note("begin")
(* one step: a line of the log before it, a row after it, a row of rates from Bbn on, and every freq-th step the files *)
Step == /\ phase = "running" /\ n < Head(calls).to /\ crash # n + 1
        /\ shown' = IF Speaks THEN Append(shown, step) ELSE shown
        /\ n' = n + 1 /\ step' = step + 1
        /\ rows' = Append(rows, n + 1)
        /\ krows' = IF conf.kawano /\ n + 1 >= conf.bbn THEN Append(krows, n + 1) ELSE krows
        /\ LET w == conf.folder /\ (step + 1) % conf.freq = 0
           IN /\ evo' = IF w THEN Len(rows') ELSE evo
              /\ kaw' = IF w /\ conf.kawano THEN Len(krows') ELSE kaw
        /\ s4' = IF s4 = Absent THEN Absent ELSE Len(krows')
        /\ UNCHANGED <<conf, calls, crash, phase, res>>
        /\ Note("step")
(* the user interrupts the computation of a step: nothing of it is recorded and the program ends *)
Crash == /\ phase = "running" /\ n < Head(calls).to /\ crash = n + 1
         /\ shown' = IF Speaks THEN Append(shown, step) ELSE shown
         /\ phase' = "dead" /\ res' = "exit"
         /\ UNCHANGED <<conf, calls, crash, n, step, rows, krows, evo, kaw, s4>>
         /\ Note("crash")
End == /\ phase = "running" /\ n >= Head(calls).to
       /\ shown' = IF Speaks THEN Append(shown, step) ELSE shown
       /\ LET x == Head(calls).export /\ conf.folder
          IN /\ evo' = IF x THEN Len(rows) ELSE evo
             /\ kaw' = IF x /\ conf.kawano THEN Len(krows) ELSE kaw
             /\ res' = IF x /\ conf.kawano THEN "nucleosynthesis" ELSE "none"
       /\ calls' = Tail(calls)
       /\ phase' = "idle"
       /\ UNCHANGED <<conf, crash, n, step, rows, krows, s4>>
       /\ Note("end")
Next == Begin \/ Step \/ Crash \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == phase = "dead" \/ (phase = "idle" /\ calls = << >>)
(* laws *)
TypeOK == evo \in Absent..Len(rows) /\ kaw \in Absent..Len(krows)
(* the rows are the states in order; the first row of a later run repeats the last of the one before *)
Rows == \A i \in 2..Len(rows): rows[i] \in {rows[i - 1], rows[i - 1] + 1}
(* rates are recorded for exactly the states of nucleosynthesis, once each *)
Rates == conf.kawano => (Len(krows) = Cardinality({k \in 1..n: k >= conf.bbn}) /\ \A i \in 1..Len(krows): krows[i] = n - Len(krows) + i)
NoFolder == ~conf.folder => (evo = Absent /\ kaw = Absent /\ s4 = Absent)
(* on disk: a prefix of what happened that lacks fewer than freq steps, once freq steps were made *)
Recent == (conf.folder /\ n >= conf.freq - 1 /\ n >= 1 /\ phase # "running" /\ evo # Absent) => n + 1 - rows[evo] <= conf.freq + 1
(* nothing that was written is lost, and it only grows *)
Keeps == [][evo' >= evo /\ kaw' >= kaw /\ s4' >= s4 /\ Len(rows') >= Len(rows) /\ Len(krows') >= Len(krows)]_vars
Ends == <>Finished
Emit == Finished => PrintT("@@" \o ToJson([conf |-> conf, crash |-> crash, hist |-> hist]))
-----------------------------------------------------------------------------
(* temperature derivative of a row of rates: aT changes by `fraction` per unit of the step variable (ln a, or x = m a) *)
DTdt(log) == IF log THEN Div(Mul(Var("H"), Sub(Var("fraction"), Var("aT"))), Var("a"))
             ELSE Mul(Var("H"), Sub(Mul(Var("fraction"), Var("m")), Var("T")))
(* the dialogue with the nucleosynthesis code: choose run, go, return; choose output, request the file, return *)
Dialogue == <<"", "4", "2", "", "4", "5", "1">>
EmitStatic == (n = 0 /\ phase = "idle" /\ conf = [folder |-> FALSE, kawano |-> FALSE, freq |-> CHOOSE f \in Freqs: TRUE, chatty |-> TRUE, bbn |-> 99] /\ calls = <<[to |-> 0, export |-> TRUE]>>)
   => PrintT("@@" \o ToJson([dialogue |-> Dialogue, dTdt |-> [log |-> DTdt(TRUE), lin |-> DTdt(FALSE)]]))
=============================================================================
