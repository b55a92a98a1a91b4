----------------------------- MODULE SeriesTrace -----------------------------
(* Validates recorded histories of a table: each event carries the operation *)
(* and what was observed afterwards (number of rows, first id, last id, sum   *)
(* of the ids read back through the table).                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, rows, next, bad
vars == <<tr, l, rows, next, bad>>

Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ rows = <<>> /\ next = 1 /\ bad = <<>>

SumOf(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)

Apply(e) == CASE e.op = "append"   -> Append(rows, next)
              [] e.op = "extend"   -> rows \o [i \in 1..e.n |-> next + i - 1]
              [] e.op = "truncate" -> SubSeq(rows, 1, Len(rows) - e.n)
              [] e.op = "read"     -> rows

Verdict(e, r) == IF e.len # Len(r) THEN <<l, e.op, "length", e.len, Len(r)>>
                 ELSE IF Len(r) > 0 /\ e.first # r[1] THEN <<l, e.op, "first row", e.first, r[1]>>
                 ELSE IF Len(r) > 0 /\ e.last # r[Len(r)] THEN <<l, e.op, "last row", e.last, r[Len(r)]>>
                 ELSE IF e.sum # SumOf(r) THEN <<l, e.op, "contents", e.sum, SumOf(r)>>
                 ELSE <<>>

Next == /\ l <= Len(Traces[tr])
        /\ LET e == Traces[tr][l]
               r == Apply(e)
           IN  /\ rows' = r
               /\ next' = IF e.op \in {"append", "extend"} THEN next + e.n ELSE next
               /\ bad' = IF bad = <<>> THEN Verdict(e, r) ELSE bad
        /\ l' = l + 1
        /\ UNCHANGED tr

Emit == (l > Len(Traces[tr])) => PrintT("@@" \o ToJson([tr |-> tr, bad |-> bad]))
=============================================================================
