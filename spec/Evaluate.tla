------------------------------ MODULE Evaluate -------------------------------
(* What forests mean on tables, and what evaluation writes (C13, C14, C17,   *)
(* C22).  Pure requirements; the loop that computes them is in EvalLoop.     *)
EXTENDS Routing
RECURSIVE SumUp(_)
SumUp(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumUp(Tail(q))
TreeScore(t, data, i) == t[LeafOf(t, data, i)].s
\* score of row i under the first k trees
Score(trees, k, data, i) == SumUp([j \in 1..k |-> TreeScore(trees[j], data, i)])
\* checkpoints that get a file
Written(points, size) == {points[i] : i \in DOMAIN points} \cap (1..size)
\* evaluation intervals
RECURSIVE Down(_, _)
Down(p, step) == IF p <= 0 THEN <<>> ELSE Down(p - step, step) \o <<p>>
TestPoints(interval, size) == IF interval > 0 THEN Down(size, interval) ELSE <<size>>
\* importance
Splits(trees) == UNION {{<<j, n>> : n \in {k \in DOMAIN trees[j] : trees[j][k].l # 0}} : j \in DOMAIN trees}
Names(trees) == {trees[p[1]][p[2]].f : p \in Splits(trees)}
\* the features a forest needs are there with the types it needs
Kind(k) == IF k = "flt" THEN "bkt" ELSE IF k = "cat" THEN "str" ELSE "none"
Fits(trees, data) == \A p \in Splits(trees) : LET n == trees[p[1]][p[2]] IN n.f \in DOMAIN data /\ data[n.f].t = Kind(n.k)
RECURSIVE GainIn(_, _, _)
GainIn(t, n, f) == IF n > Len(t) THEN 0 ELSE (IF t[n].l # 0 /\ t[n].f = f THEN t[n].gain ELSE 0) + GainIn(t, n + 1, f)
TotalGain(trees, f) == SumUp([j \in DOMAIN trees |-> GainIn(trees[j], 1, f)])
=============================================================================
