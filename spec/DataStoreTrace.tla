-------------------------- MODULE DataStoreTrace ---------------------------
(* Trace validation: every call on the real store, with its result and the   *)
(* complete observable state after it, must be a step of DataStore.          *)
EXTENDS DataStore, TraceLib
VARIABLE l
TVars == <<vars, l>>

\* What the real store shows, compared with the abstract state.
Shows(ev, c) ==
  /\ ev.nrows = NumRows(c) /\ ev.ncols = NumCols(c)
  /\ \A t \in Types : SetOf(ev.list[t]) = Listing(c, t) /\ Len(ev.list[t]) = Cardinality(Listing(c, t))
  /\ \A i \in DOMAIN ev.obs :
       LET o == ev.obs[i] IN
         IF o.n \in DOMAIN c
         THEN /\ o.found /\ o.same /\ o.type = c[o.n].type /\ o.rows = c[o.n].rows /\ o.id = c[o.n].id
              /\ \A t \in Types : o.typed[t] = (t = c[o.n].type)
         ELSE /\ ~o.found
              /\ \A t \in Types : ~o.typed[t]

Step(ev) ==
  CASE ev.e = "Reset" -> cols' = <<>> /\ res' = "OK"
    [] ev.e = "Add" -> Add(ev.n, ev.t, ev.r, ev.id) /\ ev.res = res' /\ Shows(ev, cols')
    [] ev.e = "Remove" -> Remove(ev.n) /\ Shows(ev, cols')
    [] OTHER -> FALSE
TInit == Init /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Trace)
         /\ Step(Trace[l])
         /\ l' = l + 1
         /\ TLCSet(1, l)
TSpec == TInit /\ [][TNext]_TVars
=============================================================================
