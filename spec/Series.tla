------------------------------- MODULE Series -------------------------------
(* The growing tables in which a run records its history (the evolution      *)
(* table, the Kawano table, a particle's distributions).  Abstractly a table *)
(* is the sequence of the rows appended to it; a row is an abstract id and   *)
(* Cell(id, column) is the number stored in one of its columns.              *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt

CONSTANTS Chunks,      \* how many rows one `extend' may carry
          Cuts,        \* how many times in a row the last row may be dropped
          MaxLen, MaxOps, Width

Cell(id, col) == 100 * id + 7 * col + 3
RowOf(id) == [col \in 1..Width |-> Cell(id, col)]

(* ---- the abstract data type ---- *)
Append1(rows, id) == Append(rows, id)
ExtendBy(rows, first, k) == rows \o [i \in 1..k |-> first + i - 1]
DropLast(rows, k) == SubSeq(rows, 1, Len(rows) - k)
At(rows, i) == IF i >= 0 THEN rows[i + 1] ELSE rows[Len(rows) + i + 1]   \* Python-style index
ValidIndex(rows, i) == i < Len(rows) /\ i >= 0 - Len(rows)

VARIABLES rows, next, hist

vars == <<rows, next, hist>>

Init == rows = <<>> /\ next = 1 /\ hist = <<>>

DoAppend == /\ Len(rows) < MaxLen
            /\ rows' = Append1(rows, next)
            /\ next' = next + 1
            /\ hist' = Append(hist, <<"append", 1>>)

DoExtend == \E k \in Chunks:
            /\ Len(rows) + k <= MaxLen
            /\ rows' = ExtendBy(rows, next, k)
            /\ next' = next + k
            /\ hist' = Append(hist, <<"extend", k>>)

DoTruncate == \E k \in Cuts:
            /\ Len(rows) >= k
            /\ rows' = DropLast(rows, k)
            /\ UNCHANGED next
            /\ hist' = Append(hist, <<"truncate", k>>)

Next == Len(hist) < MaxOps /\ (DoAppend \/ DoExtend \/ DoTruncate)

(* ---- what holds in every reachable state ---- *)
RECURSIVE Net(_)
Net(h) == IF h = <<>> THEN 0
          ELSE Net(Front(h)) + (IF Last(h)[1] = "truncate" THEN 0 - Last(h)[2] ELSE Last(h)[2])
LengthIsNet == Len(rows) = Net(hist)                 \* nothing lost, nothing invented
Chronological == \A i \in 1..(Len(rows) - 1): rows[i] < rows[i + 1]
PastNeverChanges ==                                   \* action property: a step only touches the tail
  [][\E n \in 0..Len(rows): /\ n <= Len(rows')
                            /\ SubSeq(rows, 1, n) = SubSeq(rows', 1, n)
                            /\ (n = Len(rows) \/ n = Len(rows'))]_vars
NegativeFromEnd == \A k \in 1..Len(rows): At(rows, 0 - k) = rows[Len(rows) - k + 1]

(* ---- behaviours for the implementation ---- *)
Emit == (Len(hist) = MaxOps) => PrintT("@@" \o ToJson([hist |-> hist, rows |-> rows]))
Spec == Init /\ [][Next]_vars
=============================================================================
