----------------------------- MODULE TsvLoadTrace ----------------------------
EXTENDS TsvLoad, TraceLib
VARIABLE l
Bad(ev) ==
  IF ev.e # "Load" THEN {ev.e}
  ELSE LET errs == Errors(ev.blocks, ev.header, ev.want)
       IN Fail(ev.ok = (errs = {}), "success although " \o ToString(errs))
          \cup IF ~ev.ok \/ errs # {} THEN {}
               ELSE LET w == Wanted(ev.want)
                        shown == {[n |-> ev.cols[i].n, t |-> ev.cols[i].t] : i \in DOMAIN ev.cols}
                    IN Fail(shown = w /\ Len(ev.cols) = Cardinality(w) /\ ev.ncols = Cardinality(w), "not the requested columns")
                       \cup Fail(ev.nrows = IF w = {} THEN 0 ELSE Len(AllRows(ev.blocks)), "row count")
                       \cup UNION {LET c == [n |-> ev.cols[i].n, t |-> ev.cols[i].t]
                                   IN IF c \notin w THEN {}
                                      ELSE LET x == Column(ev.blocks, ev.header, c)
                                           IN Fail(ev.cols[i].rows = x /\ ev.cols[i].rows2 = x, "rows differ: " \o c.n)
                                   : i \in DOMAIN ev.cols}
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
