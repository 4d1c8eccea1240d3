---------------------------- MODULE PairLossTrace ----------------------------
(* Recorded iterations of pairwise losses (mode "pair"): which pairs were    *)
(* drawn from which groups, with which weights and ranks, and the gradients  *)
(* that came out.  The event Init binds the data and the configuration.      *)
EXTENDS Losses, PairGroup, TraceLib
VARIABLES l, world
ev == Trace[l]
Y(r) == world.y[r + 1]          \* halves
W(r) == world.w[r + 1]          \* halves
Rows == 0..(Len(world.y) - 1)
\* the groups and their numbers of pairs, computed when the data come
ClassesOf(d) == LET all == 0..(Len(d.y) - 1)
                IN IF d.grouped THEN {{q \in all : d.grp[q + 1] = g} : g \in SetOf(d.grp)} ELSE {all}
Classes == DOMAIN world.num
NumOf == world.num
TotalPairs == FoldSet(LAMBDA C, a : a + NumOf[C], 0, Classes)
Largest == FoldSet(LAMBDA C, a : Max2(NumOf[C], a), 1, Classes)
\* half the sampling rate times the rows, shared among groups by their pairs
Draws(m, total) == LET x == m * world.rate8 * Len(world.y)   d == 16 * total
                   IN IF total = 0 THEN {0} ELSE {x \div d} \cup (IF x % d = 0 THEN {(x \div d) - 1} ELSE {})
\* weight of a pair apart from the row weights
PairWeight(p) ==
  LET dy == Y(p[1]) - Y(p[2])
  IN IF world.loss = "lambdamart" THEN (dy * Abs(world.disc[p[3] + 1] - world.disc[p[4] + 1])) \div 2
     ELSE IF world.delta THEN dy * 5000 ELSE 10000
WeightOk(p) == Near(p[5], PairWeight(p), IF world.loss = "lambdamart" THEN 2 + Y(p[1]) - Y(p[2]) ELSE 0)
GroupFails(gr, total, largest) ==
  LET C == SetOf(gr.g.order)   P == Pairs(world.y, C)   ps == gr.p   f == ev.f
  IN Fail(C \in Classes /\ Cardinality(C) = Len(gr.g.order), "a group is not the rows with one group value")
     \cup Fail(\A i \in DOMAIN ps : <<ps[i][1], ps[i][2]>> \in P, "drawn: not an ordered pair of the group")
     \cup Fail(Len(ps) \in Draws(Cardinality(P), total), "number of pairs drawn")
     \cup IF \E i \in DOMAIN ps : <<ps[i][1], ps[i][2]>> \notin P THEN {} ELSE
          Fail(\A i \in DOMAIN ps : WeightOk(ps[i]), "weight of a pair")
     \cup Fail(~world.rerank \/ RanksFit(gr.g.order, gr.g.ranks, f), "ranks are not the order of the scores")
\* sum over all pairs of what they add to row r: <<g, h, error bound>>
Sigma(df8) == IF ToString(df8) \in DOMAIN ev.sig THEN ev.sig[ToString(df8)] ELSE 0
Adds(p, r, m, largest) ==
  IF p[1] # r /\ p[2] # r THEN <<0, 0, 0>>
  ELSE LET gh == PairGH(world.loss, Y(p[1]) - Y(p[2]), ev.f[p[1] + 1] - ev.f[p[2] + 1], Sigma(ev.f[p[1] + 1] - ev.f[p[2] + 1]))
           k == W(p[1]) * W(p[2]) * (IF world.equal THEN largest ELSE 1)
           d == 4 * (IF world.equal THEN m ELSE 1)
           g == (Mul(p[5], gh[1]) * k) \div d
           h == 2 * ((Mul(p[5], gh[2]) * k) \div d)
       IN <<IF p[1] = r THEN g ELSE -g, h, 3 + (4 * k) \div d>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
InGroup(gr, r, largest) == LET m == NumOf[SetOf(gr.g.order)]
                           IN FoldLeft(LAMBDA a, p : Plus(a, Adds(p, r, m, largest)), <<0, 0, 0>>, gr.p)
Sum(r, largest) == FoldLeft(LAMBDA a, gr : IF r \in SetOf(gr.g.order) THEN Plus(a, InGroup(gr, r, largest)) ELSE a, <<0, 0, 2>>, ev.groups)
\* the progress message: the reduction (1e-4 of the first loss reported) belongs to the two losses
ReductionOK(init, said, red) ==
  init <= 0 \/ init > 100000 \/ said > 1000000 \/ Abs(U - red) > 199999
  \/ Near(Mul(init, U - red), said, 3 + init \div U + (Abs(U - red) \div U))
\* the reported loss: the weighted mean over all pairs drawn <<weights, weighted losses, error bound>>
Weighed(p, m, largest) ==
  LET w == (p[5] * W(p[1]) * W(p[2]) * (IF world.equal THEN largest ELSE 1)) \div (4 * (IF world.equal THEN m ELSE 1))
      d == ev.f[p[1] + 1] - ev.f[p[2] + 1]
      x == PairLoss(world.loss, Y(p[1]) - Y(p[2]), d, IF ToString(d) \in DOMAIN ev.lg THEN ev.lg[ToString(d)] ELSE 0)
  IN <<w, Mul(w, x), 4 + (3 + Y(p[1]) - Y(p[2])) * (x \div U + 1) * (1 + (W(p[1]) * W(p[2]) * (IF world.equal THEN largest \div m + 1 ELSE 1)) \div 4) + w \div U>>
\* numbers TLC can add up
Small(largest) ==
  LET Terms == [i \in DOMAIN ev.groups |-> LET m == NumOf[SetOf(ev.groups[i].g.order)] IN [k \in DOMAIN ev.groups[i].p |-> Weighed(ev.groups[i].p[k], m, largest)]]
      Fits(p) == /\ (p[5] \div 1000) * (W(p[1]) * W(p[2]) + 1) * (IF world.equal THEN largest ELSE 1) <= 100000
                 /\ LET d == ev.f[p[1] + 1] - ev.f[p[2] + 1] IN PairLoss(world.loss, Y(p[1]) - Y(p[2]), d, IF ToString(d) \in DOMAIN ev.lg THEN ev.lg[ToString(d)] ELSE 0) <= 200000
  IN /\ \A i \in DOMAIN ev.groups : \A k \in DOMAIN ev.groups[i].p : Fits(ev.groups[i].p[k])
     /\ \A i \in DOMAIN Terms : \A k \in DOMAIN Terms[i] : Terms[i][k][1] <= 1000000 /\ Terms[i][k][2] <= 2000000
     /\ FoldLeft(LAMBDA a, g : a + Len(g.p), 0, ev.groups) <= 100
Mean(largest) == FoldLeft(LAMBDA a, gr : LET m == NumOf[SetOf(gr.g.order)] IN FoldLeft(LAMBDA b, p : Plus(b, Weighed(p, m, largest)), a, gr.p), <<0, 0, 2>>, ev.groups)
\* without any weight there is no mean, and nothing later is a reduction of it
Told == IF ~ev.said THEN {}
        ELSE IF ~ev.readable THEN {"unreadable message"}
        ELSE IF ~ev.finite THEN Fail(Mean(Largest)[1] <= Mean(Largest)[3], "no loss reported")
        ELSE IF ev.loss_said > 150000 \/ ~Small(Largest) THEN {}
        ELSE LET s == Mean(Largest)
             IN Fail(Near(Mul(s[1], ev.loss_said), s[2], s[3] + s[1] \div U + 2), "the reported loss is not the mean loss")
                \cup Fail(world.init = -2 \/ (ev.red_finite /\ ReductionOK(IF world.init >= 0 THEN world.init ELSE ev.loss_said, ev.loss_said, ev.red_said)), "the reported reduction")
IterFails ==
  LET n == Len(world.y)   total == TotalPairs   largest == Largest
      gf == UNION {GroupFails(ev.groups[i], total, largest) : i \in DOMAIN ev.groups}
            \cup Fail(\A i, j \in DOMAIN ev.groups : i # j => SetOf(ev.groups[i].g.order) # SetOf(ev.groups[j].g.order), "a group came twice")
            \cup Fail(\A C \in Classes : 0 \in Draws(NumOf[C], total) \/ \E i \in DOMAIN ev.groups : SetOf(ev.groups[i].g.order) = C, "a group was left out")
  IN Fail(ev.const = 0, "constant")
     \cup gf
     \cup IF Len(ev.g) # n \/ Len(ev.h) # n THEN {"number of gradients"}
          ELSE IF gf # {} THEN {}
          ELSE UNION {LET s == Sum(r, largest) IN Fail(Near(ev.g[r + 1], s[1], s[3]), "gradient of a row") \cup Fail(Near(ev.h[r + 1], s[2], 2 * s[3]), "curvature of a row") : r \in Rows}
Likely(n, e) == LET d == Max2(Abs(n - e) - 7, 0) IN d <= 40000 /\ d * d <= 49 * e
TotalFails ==
  LET drawn == {<<ev.counts[i][1], ev.counts[i][2]>> : i \in DOMAIN ev.counts}
      all == UNION {Pairs(world.y, C) : C \in Classes}
      CountIn(C) == FoldLeft(LAMBDA a, c : IF c[1] \in C THEN a + c[3] ELSE a, 0, ev.counts)
  IN Fail(drawn \subseteq all, "drawn: not an ordered pair of a group")
     \cup UNION {LET P == Pairs(world.y, C)   k == CountIn(C)
                 IN Fail(\A p \in P : LET s == {i \in DOMAIN ev.counts : ev.counts[i][1] = p[1] /\ ev.counts[i][2] = p[2]}
                                      IN Likely(IF s = {} THEN 0 ELSE ev.counts[CHOOSE i \in s : TRUE][3], k \div Cardinality(P)), "pairs are not equally likely over the iterations") : C \in Classes}
Opening == ev.e = "Init" /\ world' = ev @@ [init |-> -1, num |-> [C \in ClassesOf(ev) |-> Cardinality(Pairs(ev.y, C))]] /\ Judge(l, Fail(ev.ok, "refused"))
Iter == /\ ev.e = "Iter"
        /\ world' = IF ev.said /\ world.init = -1 THEN [world EXCEPT !.init = IF ev.finite THEN ev.loss_said ELSE -2] ELSE world
        /\ LET x == IterFails IN Judge(l, x \cup IF x = {} THEN Told ELSE {})
Totals == ev.e = "Totals" /\ UNCHANGED world /\ Judge(l, TotalFails)
Other == ev.e \notin {"Init", "Iter", "Totals"} /\ Judge(l, {ToString(ev)}) /\ UNCHANGED world
TInit == l = 1 /\ world = [y |-> <<>>]
TNext == l <= Len(Trace) /\ (Opening \/ Iter \/ Totals \/ Other) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, world>>
=============================================================================
