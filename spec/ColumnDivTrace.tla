-------------------------- MODULE ColumnDivTrace ---------------------------
(* One list of rows, several divisions into batches: the columns agree.      *)
EXTENDS TraceLib
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
\* the buckets are built from all rows: no proper prefix of batches exceeds 100 * budget rows
FromAll(d, budget) == \A k \in 0..(Len(d) - 1) : Sum(d, k) <= 100 * budget
Bad(ev) ==
  IF ev.e # "Div" THEN {ev.e}
  ELSE LET Full == {k \in DOMAIN ev.divs : ev.kind = "str" \/ FromAll(ev.divs[k], ev.budget)}
       IN Fail(\A k \in DOMAIN ev.sizes : ev.sizes[k] = ev.n, "number of rows")
     \cup Fail(\A j, k \in Full : ev.outs[j] = ev.outs[k], "content depends on the division into batches")
VARIABLE l
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
