---------------------------- MODULE EvaluateTrace ----------------------------
(* Recorded operations on tables and forests against Evaluate.  seen holds   *)
(* the exact score of every row (by identity) under every forest, so that a  *)
(* score cannot depend on other rows, their order, threads or history.       *)
EXTENDS Evaluate, TraceLib
VARIABLES l, world, forests, seen
ev == Trace[l]
tvars == <<l, world, forests, seen>>
T == world.tables[ev.table]
F == forests[ev.forest]
Open == /\ ev.e = "Open" /\ world' = ev /\ forests' = ev.forests /\ seen' = {}
\* a new execution of the same operations: earlier scores stay binding
Again == ev.e = "Again" /\ forests' = world.forests /\ UNCHANGED <<world, seen>>
Score1 ==
  /\ ev.e = "score"
  /\ LET n == Len(T.ids)
         mine == {<<F.hex, T.ids[i], ev.hex[i]>> : i \in 1..n}
     IN IF ~Fits(F.trees, T.data) THEN Judge(l, Fail(~ev.ok, "a forest that does not fit the store gave scores")) /\ UNCHANGED <<world, forests, seen>>
        ELSE IF ~ev.ok \/ Len(ev.scores) # n THEN Judge(l, IF ev.ok /\ ~ev.uniform THEN {"equal rows have different scores"} ELSE {"no scores"}) /\ UNCHANGED <<world, forests, seen>>
        ELSE /\ Judge(l, Fail(~F.exact \/ \A i \in 1..n : ev.scores[i] = Score(F.trees, Len(F.trees), T.data, i), "a score is not the sum of the leaves")
                         \cup Fail(ev.uniform, "equal rows have different scores")
                         \cup Fail(\A a \in mine, b \in mine \cup seen : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3], "the score of a row depends on something else")
                         \cup Fail(ev.after = F.hex, "evaluation changed the forest"))
             /\ seen' = seen \cup mine /\ UNCHANGED <<world, forests>>
Tol(x) == 1 + Abs(x) \div 190000
Lines(k, v) == Len(v) = Len(T.ids) /\ \A i \in DOMAIN v : LET s == Score(F.trees, k, T.data, i) IN Near(v[i], s, Tol(s))
Files1 ==
  /\ ev.e = "files"
  /\ LET must == Written(ev.points, Len(F.trees))
         stuck == IF ev.deep THEN must ELSE must \cap SetOf(ev.blocked)
         got == {ev.files[i].k : i \in DOMAIN ev.files}
     IN Judge(l, Fail(ev.ok = (stuck = {}), "status")
                 \cup Fail(stuck # {} \/ got = must, "not the files asked for")
                 \cup Fail(got \subseteq must, "a file nobody asked for")
                 \cup Fail(\A i \in DOMAIN ev.files : ev.files[i].k \in must =>
                             ev.files[i].clean /\ Lines(ev.files[i].k, ev.files[i].v), "content of a file"))
  /\ UNCHANGED <<world, forests, seen>>
Json1 == /\ ev.e = "json"
         /\ Judge(l, Fail(ev.ok, "conversion failed") \cup Fail(ev.hex = F.hex /\ ev.trees = F.trees, "another forest came back")
                     \cup Fail(ev.samemeta, "description changed"))
         /\ forests' = Append(forests, [F EXCEPT !.trees = ev.trees, !.hex = ev.hex]) /\ UNCHANGED <<world, seen>>
Importance1 ==
  /\ ev.e = "importance"
  /\ LET fs == Names(F.trees)
         tot == [f \in fs |-> TotalGain(F.trees, f)]
         top == CHOOSE f \in fs : \A g \in fs : tot[f] >= tot[g]
         imp == ev.imp
     IN Judge(l, Fail(SetOf(ev.features) = fs /\ Len(ev.features) = Cardinality(fs), "features of the forest")
                 \cup IF {imp[i].f : i \in DOMAIN imp} # fs \/ Len(imp) # Cardinality(fs) THEN {"features of the importance list"}
                      ELSE IF fs # {} /\ tot[top] = 0 THEN {}   \* no gains recorded: no shares of them
                      ELSE Fail(\A i \in 2..Len(imp) : imp[i - 1].v >= imp[i].v, "order")
                           \cup Fail(Len(imp) = 0 \/ imp[1].v = 1000000, "does not start with 1")
                           \* gains are multiples of 1/4: 2500 units
                           \cup Fail(\A i \in DOMAIN imp : Abs((imp[i].v \div 100) * (tot[top] \div 2500) - 10000 * (tot[imp[i].f] \div 2500)) <= tot[top] \div 2500 + 1,
                                     "importance is not the share of the largest total gain"))
  /\ UNCHANGED <<world, forests, seen>>
Points1 == /\ ev.e = "points" /\ Judge(l, Fail(ev.points = TestPoints(ev.interval, ev.size), "evaluation points"))
           /\ UNCHANGED <<world, forests, seen>>
Other == /\ ev.e \notin {"Open", "Again", "score", "files", "json", "importance", "points"}
         /\ Judge(l, {ToString(ev)}) /\ UNCHANGED <<world, forests, seen>>
TInit == l = 1 /\ world = [tables |-> <<>>] /\ forests = <<>> /\ seen = {}
TNext == l <= Len(Trace) /\ (Open \/ Again \/ Score1 \/ Files1 \/ Json1 \/ Importance1 \/ Points1 \/ Other) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
