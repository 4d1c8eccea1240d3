--------------------------- MODULE FlatStoreTrace ----------------------------
(* Trace validation of flat-file stores: calls and returns are recorded, the *)
(* moments at which requests take effect are inferred by TLC.                *)
EXTENDS FlatStore, TraceLib
VARIABLE l
\* the column shown is the file's, complete and alive
Shows(x, n) == LET f == Resolve(dirs, n)
               IN /\ x.alive /\ x.name = n /\ x.type = Type(f)
                  /\ x.rows = Rows(f) /\ x.rows2 = Rows(f)
Returned(ev) == /\ ev.t \in DOMAIN req
                /\ ev.found => Shows(ev, req[ev.t].n)
                /\ Ret(ev.t, ev.found, ev.id)
AtEnd(ev) == /\ ev.ncols = Cardinality(Loaded)
             /\ ev.nrows = IF Loaded = {} THEN 0 ELSE nrows
             /\ \A i \in DOMAIN ev.cols : \E n \in Loaded : label[n] = ev.cols[i].id /\ Shows(ev.cols[i], n)
             /\ UNCHANGED svars
Step(ev) ==
  CASE ev.e = "Open" -> Reopen(ev.dirs, 0..(ev.threads - 1))
    [] ev.e = "Call" -> ev.t \in DOMAIN req /\ Call(ev.t, ev.n, ev.want)
    [] ev.e = "Ret" -> Returned(ev)
    [] ev.e = "End" -> AtEnd(ev)
    [] OTHER -> FALSE
TInit == dirs = <<>> /\ nrows = -1 /\ label = [x \in {} |-> 0] /\ req = [t \in {} |-> Idle] /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Trace)
         /\ \/ Step(Trace[l]) /\ l' = l + 1 /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
            \/ (\E t \in DOMAIN req : Lin(t)) /\ l' = l
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
