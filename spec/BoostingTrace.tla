---------------------------- MODULE BoostingTrace ----------------------------
(* Recorded trainings against Boosting: Start carries the final forest, so   *)
(* that every Loss event can be checked against the tree added after it.     *)
EXTENDS TraceLib, Routing, SequencesExt
TT == INSTANCE TreesTrace WITH l <- 0
VARIABLES l, cfg, F, const, k, tol, status
tvars == <<l, cfg, F, const, k, tol, status>>
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Single(t) == t[1].l = 0
LeafScore(t, data, i) == t[LeafOf(t, data, i)].s
ForestScore(f, data, i) == SumSeq([j \in DOMAIN f |-> LeafScore(f[j], data, i)])
Multi(b) == SelectSeq(b, LAMBDA t : ~Single(t))
\* the output copies base trees; what a leaf would have split on is dropped
CleanNode(nd) == IF nd.l = 0 THEN [nd EXCEPT !.k = "none", !.f = "", !.gain = 0, !.th = 0, !.mr = FALSE, !.cats = <<>>, !.nint = 0]
                 ELSE [nd EXCEPT !.nint = 0]
Clean(t) == [j \in DOMAIN t |-> CleanNode(t[j])]
ev == Trace[l]
\* one reason per rejected event; rejecting keeps the state machine going
FreshOK(e) ==
  LET nb == Len(Multi(e.base))
      lastCase == IF e.ok THEN
           Fail(Len(e.forest) = 1 + nb + e.trees, "size of the forest")
      \cup Fail(Len(e.forest) < 1 \/ Single(e.forest[1]), "first tree is not a constant")
      \cup Fail(Len(e.forest) < 1 + nb \/ \A j \in 1..nb : e.forest[j + 1] = Clean(Multi(e.base)[j]), "base trees are not kept")
      \cup Fail(\A j \in DOMAIN e.forest : e.forest[j] = Clean(e.forest[j]), "internal fields in the output")
      \cup Fail(e.meta, "no description")
      ELSE {}
  IN lastCase \cup Fail(e.uniform, "equal rows are treated differently")
Start ==
  /\ ev.e = "Start"
  /\ Judge(l, FreshOK(ev))
  /\ cfg' = ev /\ k' = 0 /\ status' = "run" /\ tol' = 2 + Len(ev.base)
  /\ F' = [i \in 1..ev.n |-> ForestScore(ev.base, ev.data, i)]
  /\ const' = SumSeq([j \in DOMAIN ev.base |-> IF Single(ev.base[j]) THEN ev.base[j][1].s ELSE 0])
\* the fitted tree undone from the learning rate: scores are compared scaled by shrink8
TreeProblem(e) == [n |-> cfg.n, data |-> [f \in SetOf(cfg.features) |-> cfg.data[f]], w |-> cfg.w, g |-> e.g, h |-> e.h,
                   lam4 |-> cfg.lam4, minh4 |-> cfg.minh4, ming4 |-> cfg.ming4, leaves |-> cfg.leaves,
                   allrows |-> cfg.allrows, allfeatures |-> cfg.allfeatures, e |-> "Tree", shrink8 |-> cfg.shrink8]
NewTree == cfg.forest[1 + Len(Multi(cfg.base)) + k + 1]
Loss ==
  /\ ev.e = "Loss" /\ status = "run"
  /\ LET \* a failed training yields no forest, so only its first function values are known
         seen == Len(ev.f) = cfg.n /\ ((~cfg.ok /\ k > 0) \/ \A i \in 1..cfg.n : Near(ev.f[i], F[i], tol))
         within == k < cfg.trees
     IN IF ~ev.finite
        THEN /\ Judge(l, Fail(seen, "the loss is not shown the forest built so far") \cup Fail(~cfg.ok, "diverged without an error"))
             /\ status' = "diverged" /\ UNCHANGED <<cfg, F, const, k, tol>>
        ELSE IF ~cfg.ok \/ ~within \/ 1 + Len(Multi(cfg.base)) + k + 1 > Len(cfg.forest)
        THEN /\ Judge(l, Fail(within, "more iterations than trees") \cup Fail(seen, "the loss is not shown the forest built so far"))
             /\ k' = k + 1 /\ UNCHANGED <<cfg, F, const, tol, status>>
        ELSE LET t == NewTree
                 usable == TT!WellFormed([TreeProblem(ev) EXCEPT !.e = "Tree"] @@ [tree |-> t])
             IN /\ Judge(l, Fail(seen, "the loss is not shown the forest built so far")
                            \cup (IF cfg.integral /\ cfg.n > 0 THEN TT!Bad(TreeProblem(ev) @@ [tree |-> t]) ELSE Fail(usable, "malformed tree")))
                /\ F' = IF usable THEN [i \in 1..cfg.n |-> F[i] + ev.const + LeafScore(t, cfg.data, i)] ELSE F
                /\ const' = const + ev.const /\ k' = k + 1 /\ tol' = tol + 2
                /\ UNCHANGED <<cfg, status>>
End ==
  /\ ev.e = "End" /\ status \in {"run", "diverged"}
  /\ Judge(l, IF status = "diverged" THEN Fail(ev.code # "OK", "diverged without an error")
              ELSE IF cfg.ok THEN Fail(k = cfg.trees, "number of iterations")
                                  \cup Fail(Near(cfg.forest[1][1].s, const, tol), "the constant tree is not the sum of the constants")
                                  \cup Fail(ev.eval = "OK" /\ Len(ev.scores) = cfg.n /\ \A i \in 1..cfg.n : Near(ev.scores[i], F[i], tol + 2),
                                            "the forest does not predict the final function values")
                                  \cup Fail(ev.base = cfg.base, "the base forest was changed")
              ELSE {"training failed: " \o ev.code})
  /\ status' = "idle" /\ UNCHANGED <<cfg, F, const, k, tol>>
\* a training with numbers too large for a trace: what is given away is finite, or an error says it diverged
Blow ==
  /\ ev.e = "Blow" /\ status = "idle"
  /\ Judge(l, Fail(ev.seen, "the loss is shown values that are no numbers")
              \cup IF ev.code = "OK" THEN Fail(ev.forest /\ ev.eval = "OK" /\ ev.scores, "diverged without an error") \cup Fail(ev.steps = ev.trees, "number of iterations")
                   ELSE Fail(ev.huge, "stopped with nothing diverging"))
  /\ UNCHANGED <<cfg, F, const, k, tol, status>>
Other == ev.e \notin {"Start", "Loss", "End", "Blow"} /\ Judge(l, {ev.e}) /\ status' = "idle" /\ UNCHANGED <<cfg, F, const, k, tol>>
TInit == l = 1 /\ cfg = <<>> /\ F = <<>> /\ const = 0 /\ k = 0 /\ tol = 0 /\ status = "idle"
TNext == l <= Len(Trace) /\ (Start \/ Loss \/ End \/ Blow \/ Other) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
