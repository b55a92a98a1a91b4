------------------------------- MODULE Threads -------------------------------
(* The loop over the momenta a kernel is asked for is shared out to threads.   *)
(* Each iteration first sets the bounds of its own integral, which depend on    *)
(* the momentum, and some of which keep the value left by an earlier iteration  *)
(* of the thread if the kinematics does not restrict them; then it integrates.  *)
(* Whatever the order of the momenta, the number of threads and the schedule,   *)
(* every momentum gets the integral over its own bounds.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Momenta,      \* momenta, as ranks
          MaxThreads,
          Lengths       \* lengths of the lists

VARIABLES ps,           \* the list
          n,            \* number of threads
          next,         \* thread -> iterations it still has to do
          pc,           \* thread -> "set" | "reset" | "integrate"
          bounds,       \* thread -> bounds of the current iteration (private)
          result,       \* iteration -> momentum whose bounds were used (0: none yet)
          threshold     \* momenta below which the lower bound is above zero
vars == <<ps, n, next, pc, bounds, result, threshold>>

Threads == 1..n
(* OpenMP's static schedule: contiguous chunks, the first ones longer by one *)
Chunk(t, len, k) == LET q == len \div k  r == len % k
                        lo == IF t <= r THEN (t - 1) * (q + 1) ELSE (t - 1) * q + r
                        size == IF t <= r THEN q + 1 ELSE q
                    IN [i \in 1..size |-> lo + i]
(* bounds: the lower one is set from the momentum, or to zero *)
Bounds(p) == IF p < threshold THEN <<p, p>> ELSE <<0, p>>

Init == /\ \E l \in Lengths: ps \in [1..l -> Momenta]
        /\ n \in 1..MaxThreads
        /\ threshold \in {0, 2}
        /\ next = [t \in Threads |-> Chunk(t, Len(ps), n)]
        /\ pc = [t \in Threads |-> "lower"]
        /\ bounds = [t \in Threads |-> <<0, 0>>]
        /\ result = [i \in 1..Len(ps) |-> <<0, 0>>]
Busy(t) == next[t] # << >>
Mine(t) == ps[Head(next[t])]
Lower(t) == /\ Busy(t) /\ pc[t] = "lower"
            /\ bounds' = [bounds EXCEPT ![t][1] = Bounds(Mine(t))[1]]
            /\ pc' = [pc EXCEPT ![t] = "upper"] /\ UNCHANGED <<ps, n, next, result, threshold>>
Upper(t) == /\ Busy(t) /\ pc[t] = "upper"
            /\ bounds' = [bounds EXCEPT ![t][2] = Bounds(Mine(t))[2]]
            /\ pc' = [pc EXCEPT ![t] = "integrate"] /\ UNCHANGED <<ps, n, next, result, threshold>>
Integrate(t) == /\ Busy(t) /\ pc[t] = "integrate"
                /\ result' = [result EXCEPT ![Head(next[t])] = bounds[t]]
                /\ next' = [next EXCEPT ![t] = Tail(@)]
                /\ pc' = [pc EXCEPT ![t] = "lower"] /\ UNCHANGED <<ps, n, bounds, threshold>>
Next == \E t \in Threads: Lower(t) \/ Upper(t) \/ Integrate(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A t \in Threads: ~Busy(t)
TypeOK == /\ \A t \in Threads: pc[t] \in {"lower", "upper", "integrate"}
          /\ \A i \in DOMAIN result: result[i] # <<0, 0>> \/ \E t \in Threads: \E k \in DOMAIN next[t]: next[t][k] = i
(* every iteration belongs to one thread *)
Shared == LET all == UNION {{Chunk(t, Len(ps), n)[k]: k \in DOMAIN Chunk(t, Len(ps), n)}: t \in Threads}
          IN all = DOMAIN ps /\ \A t, u \in Threads: t # u => {Chunk(t, Len(ps), n)[k]: k \in DOMAIN Chunk(t, Len(ps), n)} \cap {Chunk(u, Len(ps), n)[k]: k \in DOMAIN Chunk(u, Len(ps), n)} = {}
Independent == \A i \in DOMAIN result: result[i] \in {<<0, 0>>, Bounds(ps[i])}
Terminates == <>Done
Emit == Done => PrintT("@@" \o ToJson([ps |-> ps, threads |-> n]))
=============================================================================
