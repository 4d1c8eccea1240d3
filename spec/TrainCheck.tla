----------------------------- MODULE TrainCheck -----------------------------
(* What any finished training must look like from outside, whichever way it  *)
(* was started.  p is a record: trees (the forest), meta, base (trees of the *)
(* base forest), data (all columns), features, cfg (num_trees, num_leaves),  *)
(* lam4, minh4, ming4, shrink8, and, when whole is TRUE, whole numbers y and *)
(* w for squared loss, for which the constant and the first new tree can be  *)
(* computed exactly.                                                         *)
EXTENDS Evaluate, TraceLib
BT == INSTANCE BoostingTrace WITH l <- 0, cfg <- <<>>, F <- <<>>, const <- 0, k <- 0, tol <- 0, status <- ""
KindOf(col) == IF col.t = "str" THEN "cat" ELSE "flt"
BaseCount(p) == Len(BT!Multi(p.base))
ShapeFaults(p) ==
  LET nb == BaseCount(p) IN
  Fail(Len(p.trees) = 1 + nb + p.cfg.num_trees, "size of the forest")
  \cup Fail(Len(p.trees) < 1 \/ BT!Single(p.trees[1]), "the first tree is no constant")
  \cup Fail(Len(p.trees) < 1 + nb \/ \A j \in 1..nb : p.trees[j + 1] = BT!Clean(BT!Multi(p.base)[j]), "the base forest is not continued")
  \cup Fail(\A j \in (nb + 2)..Len(p.trees) : \A n \in DOMAIN p.trees[j] : LET t == p.trees[j][n] IN t.l # 0 =>
              t.f \in p.features /\ t.k = KindOf(p.data[t.f]), "a split on something else than the features")
  \cup Fail(p.meta, "no description")
\* one step of squared loss over whole numbers
RECURSIVE Total(_, _)
Total(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + Total(f, n - 1)
Count(p) == Len(p.y)
Residual(p, i) == 10000 * p.y[i] - Score(p.base, Len(p.base), p.data, i)
WeightSum(p) == Total(LAMBDA i : p.w[i], Count(p))
WeightedSum(p) == Total(LAMBDA i : p.w[i] * (Residual(p, i) \div 10000), Count(p))
Whole(p) == /\ p.whole /\ p.cfg.num_trees >= 1
            /\ \A i \in 1..Count(p) : Residual(p, i) % 10000 = 0
            /\ WeightSum(p) > 0 /\ WeightedSum(p) % WeightSum(p) = 0
Mean(p) == WeightedSum(p) \div WeightSum(p)
ConstOf(base) == SumUp([j \in DOMAIN base |-> IF BT!Single(base[j]) THEN base[j][1].s ELSE 0])
FirstTree(p) == [e |-> "Tree", n |-> Count(p), data |-> [f \in p.features |-> p.data[f]], w |-> p.w,
                 g |-> [i \in 1..Count(p) |-> (Residual(p, i) \div 10000) - Mean(p)], h |-> [i \in 1..Count(p) |-> 1],
                 lam4 |-> p.lam4, minh4 |-> p.minh4, ming4 |-> p.ming4, leaves |-> p.cfg.num_leaves,
                 allrows |-> TRUE, allfeatures |-> TRUE, shrink8 |-> p.shrink8, tree |-> p.trees[BaseCount(p) + 2]]
StepFaults(p) ==
  IF ~Whole(p) THEN {}
  ELSE Fail(p.cfg.num_trees # 1 \/ Near(p.trees[1][1].s, ConstOf(p.base) + 10000 * Mean(p), 2 + Len(p.base)), "the constant is not the weighted mean")
       \cup BT!TT!Bad(FirstTree(p))
TrainFaults(p) == LET s == ShapeFaults(p) IN IF s = {} THEN StepFaults(p) ELSE s
\* importances: shares of the largest total gain (gains in units of 1e-4, shares of 1e-6)
Shares(trees, imp) ==
  LET fs == Names(trees)
      tot == [f \in fs |-> TotalGain(trees, f)]
      top == CHOOSE f \in fs : \A g \in fs : tot[f] >= tot[g]
  IN Fail({imp[i].f : i \in DOMAIN imp} = fs /\ Len(imp) = Cardinality(fs), "features of the importance list")
     \cup Fail(\A i \in 2..Len(imp) : imp[i - 1].v >= imp[i].v, "order of importance")
     \cup IF {imp[i].f : i \in DOMAIN imp} # fs \/ imp = <<>> \/ tot[top] <= 0 THEN {}
          ELSE Fail(imp[1].v = 1000000, "the most important has not 1")
               \cup Fail(tot[top] < 10000 \/ tot[top] > 10000000 \/ \A i \in DOMAIN imp :
                            Abs((imp[i].v \div 100) * (tot[top] \div 100) - 10000 * (tot[imp[i].f] \div 100)) <= (tot[top] \div 100) * 2 + 30000,
                         "importance is not the share of the largest total gain")
=============================================================================
