----------------------------- MODULE TreesTrace -----------------------------
EXTENDS TraceLib, Routing, SequencesExt
TR == INSTANCE Trees WITH NRows <- 0, ModelCodes <- {}, ModelG <- {}, Limits <- {}, ModelPar <- <<0, 0, 0>>,
                          x1 <- <<>>, x2 <- <<>>, g <- <<>>, limit <- 0, leaves <- {}, energy <- 0
SP == INSTANCE Splits WITH ScanG <- {}, ScanH <- {}, ScanCodes <- {}, ScanRows <- 0, ScanParams <- {}, ScanType <- "",
                           rows <- <<>>, par <- <<>>
VARIABLE l
\* codes of a column: 0 for missing, else the rank among the values (the position in some order for strings)
CodesOf(col) ==
  IF col.t = "str"
  THEN LET q == SetToSeq(SetOf(col.v) \ {"__missing__"})
       IN [i \in DOMAIN col.v |-> IF col.v[i] = "__missing__" THEN 0 ELSE CHOOSE k \in DOMAIN q : q[k] = col.v[i]]
  ELSE LET D == SetOf(col.v) \ {NaN}
       IN [i \in DOMAIN col.v |-> IF col.v[i] = NaN THEN 0 ELSE Cardinality({d \in D : d <= col.v[i]})]
Problem(ev, f) == [code |-> CodesOf(ev.data[f]), w |-> ev.w, g |-> ev.g, h |-> ev.h,
                   lam4 |-> ev.lam4, minh4 |-> ev.minh4, ming4 |-> ev.ming4]
WellFormed(ev) ==
  /\ Len(ev.tree) >= 1
  /\ \A n \in DOMAIN ev.tree :
       LET t == ev.tree[n] IN
         /\ (t.l = 0) <=> (t.r = 0)
         /\ t.l # 0 => t.k # "none"
         /\ t.k # "none" => t.f \in DOMAIN ev.data /\ t.k = (IF ev.data[t.f].t = "str" THEN "cat" ELSE "flt")
NodeBad(ev, probs, R, n) ==
  LET t == ev.tree[n]
      S == R[n]
  IN Fail(Near(8 * t.s, ev.shrink8 * SP!ScoreGH(SP!SumG(ev, S), SP!SumH(ev, S), ev.lam4), 18), "score of a node")
     \cup IF t.k = "none" THEN {}
          ELSE LET L == LeftOf(t, ev.data[t.f], S)
                   p == probs[t.f]
               IN Fail(SP!GainIsReal(p, S, t.gain, L), "gain of a node")
                  \cup Fail(SP!Qualifies(p, S, t.gain, L), "split violates min_hessian or min_gain")
                  \cup Fail(SP!Optimal(p, S, ev.data[t.f].t, t.gain), "a better split of the feature exists")
                  \cup Fail(~ev.allfeatures \/ \A f \in DOMAIN probs : SP!Optimal(probs[f], S, ev.data[f].t, t.gain), "a better feature exists")
TreeBad(ev, probs, S) ==
  LET R == RowsOfNodes(ev.tree, ev.data, S)
      types == [f \in DOMAIN probs |-> ev.data[f].t]
      best == [n \in DOMAIN ev.tree |-> IF ev.tree[n].l # 0 \/ ~ev.allfeatures THEN ev.tree[n].gain
                                        ELSE TR!BestGain(probs, types, R[n])]
      Leaves == {n \in DOMAIN ev.tree : ev.tree[n].l = 0}
  IN Fail(DOMAIN R = DOMAIN ev.tree, "unreachable node")
     \cup UNION {NodeBad(ev, probs, R, n) : n \in DOMAIN R}
     \cup Fail(Cardinality(Leaves) <= Max2(1, ev.leaves), "too many leaves")
     \cup IF ~ev.allfeatures THEN {}
          ELSE Fail(TR!Replay(ev.tree, best, {1}, SP!Tol), "not grown best-first")
               \cup Fail(Cardinality(Leaves) >= ev.leaves \/ \A n \in Leaves : best[n] <= SP!MinGain(ev) + SP!Tol,
                         "growth stopped although a leaf can be split")
Bad(ev) ==
  IF ev.e # "Tree" THEN {ev.e}
  ELSE IF ~WellFormed(ev) THEN {"malformed tree"}
  ELSE LET probs == [f \in DOMAIN ev.data |-> Problem(ev, f)]
       IN IF ev.allrows THEN TreeBad(ev, probs, 1..ev.n)
          ELSE \* the sample is not observed: some sample must explain the tree
               IF \E S \in SUBSET (1..ev.n) : TreeBad(ev, probs, S) = {} THEN {} ELSE {"no sample of rows explains the tree"}
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(l, Bad(Trace[l])) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
