--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Trace validation of the worker pool: visible steps are the recorded       *)
(* events, the hidden steps (when a call put its task into the queue, when a *)
(* worker took it) are inferred by TLC.  An execution whose order of starts  *)
(* has no such explanation, or that ends in a deadlock, crash or race, is    *)
(* rejected.                                                                 *)
EXTENDS ThreadPool, TraceLib
VARIABLE l
Step(ev) ==
  CASE ev.e = "Begin" -> pool = "closed" /\ Start0(ev.workers, ev.n)
    [] ev.e = "Call" -> Call(ev.i)
    [] ev.e = "Ret" -> Ret(ev.i)
    [] ev.e = "Start" -> Run(ev.i, ev.w)
    [] ev.e = "End" -> End(ev.i, ev.w)
    [] ev.e = "Close" -> Close
    [] ev.e = "Closed" -> Closed(ev.live)
    [] ev.e = "Stat" -> pool = "closed" /\ ev.runs > 0 /\ UNCHANGED avars
    [] OTHER -> FALSE
TInit == nw = 1 /\ ph = <<>> /\ ret = {} /\ queue = <<>> /\ by = <<>> /\ pool = "closed" /\ l = 1 /\ TLCSet(1, 0)
Hidden == (\E i \in DOMAIN ph : Push(i)) \/ Take
TNext == /\ l <= Len(Trace)
         /\ \/ Step(Trace[l]) /\ l' = l + 1 /\ (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE)
            \/ Hidden /\ l' = l
TSpec == TInit /\ [][TNext]_<<avars, l>>
=============================================================================
