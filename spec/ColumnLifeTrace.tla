-------------------------- MODULE ColumnLifeTrace --------------------------
(* Trace validation of column life cycles.  In lossless histories (fewer     *)
(* rows than twice the budget, no early bucket building) the rows read back  *)
(* must be those of the specification; otherwise each lies within bounds.    *)
EXTENDS ColumnLife, TraceLib
NoBatches == {}
NaN == 2147483647
VARIABLES l, exact, limit
\* exact: rows must read back exactly.  limit: twice the bucket budget.
ShowRows(ev) ==
  /\ ev.readable = fin'
  /\ fin' =>
     /\ ev.size = Len(rows')
     /\ Len(ev.rows.v) = Len(rows') /\ Len(ev.rows.w) = Len(rows')
     /\ IF exact' THEN ev.rows.v = rows' /\ ev.rows.w = rows'
        ELSE \A i \in DOMAIN rows' : IF rows'[i] = NaN THEN ev.rows.v[i] = NaN
                                     ELSE ev.rows.v[i] <= rows'[i] /\ rows'[i] <= ev.rows.w[i]
Shows(ev) == ev.ok = ok' /\ ShowRows(ev)
Step(ev) ==
  CASE ev.e = "New" -> /\ kind' = ev.kind /\ fin' = FALSE /\ ok' = TRUE /\ rows' = <<>> /\ built' = FALSE
                       /\ exact' = TRUE /\ limit' = 2 * ev.budget
    [] ev.e = "Add" -> /\ Add(ev.b) /\ limit' = limit
                       /\ exact' = (exact /\ (kind = "bkt" => ~(built /\ ~fin) /\ Len(rows') < limit))
                       /\ Shows(ev)
    [] ev.e = "Finalize" -> Finalize /\ UNCHANGED <<exact, limit>> /\ Shows(ev)
    [] ev.e = "Build" -> Build /\ UNCHANGED <<exact, limit>> /\ Shows(ev)
    [] OTHER -> FALSE
TInit == kind = "str" /\ fin = FALSE /\ ok = TRUE /\ rows = <<>> /\ built = FALSE
         /\ l = 1 /\ exact = TRUE /\ limit = 0 /\ TLCSet(1, 0)
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ TLCSet(1, l)
TSpec == TInit /\ [][TNext]_<<vars, l, exact, limit>>
=============================================================================
