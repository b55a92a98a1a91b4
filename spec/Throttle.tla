------------------------------ MODULE Throttle ------------------------------
(* The throttle of the log: it lets output through in the first step, and    *)
(* afterwards at an update iff `rate` has passed since it last did.          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps
VARIABLES rate, now, last, out, hist
vars == <<rate, now, last, out, hist>>
Init == rate \in {0, 1, 2, 5} /\ now = 0 /\ last = 0 /\ out = TRUE /\ hist = << >>
Tick == \E d \in {1, 2, 7}: now' = now + d /\ UNCHANGED <<rate, last, out>> /\ hist' = Append(hist, [op |-> "tick", now |-> now', out |-> out])
Update == /\ out' = (now - last >= rate)
          /\ last' = IF now - last >= rate THEN now ELSE last
          /\ UNCHANGED <<rate, now>>
          /\ hist' = Append(hist, [op |-> "update", now |-> now, out |-> out'])
Next == Len(hist) < MaxOps /\ (Tick \/ Update)
Spec == Init /\ [][Next]_vars
(* two outputs are never closer than the rate; silence is never longer than needed *)
Spaced == [][(out' /\ last' # last) => last' - last >= rate]_vars
Fresh == last <= now
Heard == (hist # << >> /\ hist[Len(hist)].op = "update" /\ ~out) => now - last < rate
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([rate |-> rate, hist |-> hist]))
=============================================================================
