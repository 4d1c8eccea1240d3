------------------------------ MODULE RunsTrace ------------------------------
(* Several runs of what should be one and the same computation (C15, C16):   *)
(* the first run binds the state, every further one must repeat it, exactly  *)
(* where it claims to be exact, up to rounding (1e-5 units) otherwise.       *)
EXTENDS TraceLib
VARIABLES l, first
ev == Trace[l]
\* numbers are in units of 1e-5; large ones lose absolute precision
Close(a, b) == Near(a, b, 3 + Max2(Abs(a), Abs(b)) \div 50000)
CloseSeq(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Close(p[i], q[i])
Rounded(a, b) ==
  Fail(Len(a.steps) = Len(b.steps), "number of iterations differs")
  \cup IF a.steps = <<>> \/ b.steps = <<>> THEN {}
       ELSE LET p == a.steps[1]   q == b.steps[1]
            IN Fail(Close(p.c, q.c), "constant depends on the number of threads")
               \cup Fail(CloseSeq(p.g, q.g) /\ CloseSeq(p.h, q.h), "gradients depend on the number of threads")
               \cup Fail(CloseSeq(p.f, q.f), "function values depend on the number of threads")
Differences(a, b) ==
  Fail(a.code = b.code, "status differs")
  \cup IF b.exact THEN Fail(a.forest = b.forest, "the forest differs") \cup Fail(a.scores = b.scores, "the predictions differ")
       ELSE Rounded(a, b)
Same == /\ first.c = ev.c
        /\ Judge(l, IF ev.e = "Run" THEN Differences(first, ev) ELSE {ev.e})
        /\ UNCHANGED first
New == /\ first.c # ev.c
       /\ Judge(l, IF ev.e = "Run" THEN {} ELSE {ev.e})
       /\ first' = IF ev.e = "Run" THEN ev ELSE [c |-> -1]
TInit == l = 1 /\ first = [c |-> -1]
TNext == l <= Len(Trace) /\ (Same \/ New) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, first>>
=============================================================================
