----------------------------- MODULE ColumnLife -----------------------------
(* Life cycle of a string or bucketized column: open, finalized, in error.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Batches        \* batches offered in the model
VARIABLES kind, fin, ok, rows, built
vars == <<kind, fin, ok, rows, built>>

Init == kind \in {"str", "bkt"} /\ fin = FALSE /\ ok = TRUE /\ rows = <<>> /\ built = FALSE
\* Rows are taken only by an open column without error.
Add(b) ==
  /\ rows' = IF ok /\ ~fin THEN rows \o b ELSE rows
  /\ ok' = (ok /\ ~fin)
  /\ UNCHANGED <<kind, fin, built>>
Finalize ==
  /\ fin' = (fin \/ ok) /\ ok' = (ok /\ ~fin)
  /\ built' = (built \/ (kind = "bkt" /\ fin'))
  /\ UNCHANGED <<kind, rows>>
\* Buckets may be built once before finalization, never after.
Build ==
  /\ kind = "bkt" /\ (fin \/ ~built)
  /\ ok' = (ok /\ ~fin) /\ built' = TRUE
  /\ UNCHANGED <<kind, fin, rows>>
Next == (\E b \in Batches : Add(b)) \/ Finalize \/ Build
Spec == Init /\ [][Next]_vars

Sticky == [][~ok => ~ok']_vars
Frozen == [][fin => fin' /\ rows' = rows]_vars
FrozenInError == [][~ok => rows' = rows]_vars
Grows == [][Len(rows') >= Len(rows) /\ SubSeq(rows', 1, Len(rows)) = rows]_vars
ErrorOnlyAfterFinal == ~ok => fin
Bounded == Len(rows) <= 4
=============================================================================
