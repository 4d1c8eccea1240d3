---------------------------- MODULE PairGroupTrace ---------------------------
(* Recorded groups (modes "group", "biggroup") against PairGroup.            *)
EXTENDS PairGroup, TraceLib
VARIABLES l, grp
ev == Trace[l]
R == SetOf(grp.rows)
Members(e) == /\ Len(e.order) = Cardinality(R) /\ SetOf(e.order) = R
              /\ Len(e.ys) = Len(e.order) /\ \A i \in DOMAIN e.order : e.ys[i] = grp.y[e.order[i] + 1]
\* n observed where e are expected, within seven standard deviations
Likely(n, e) == LET d == Max2(Abs(n - e) - 7, 0) IN d <= 40000 /\ d * d <= 49 * e
Opening == /\ ev.e = "Group" /\ grp' = ev
           /\ Judge(l, LET y == ev.y   Q == SetOf(ev.rows)
                       IN Fail(ev.pairs = Cardinality(Pairs(y, Q)), "number of pairs")
                          \cup Fail(Len(ev.order) = Cardinality(Q) /\ SetOf(ev.order) = Q, "members")
                          \cup Fail(SetOf(ev.ranks) = 0..(Cardinality(Q) - 1), "ranks"))
Step == /\ ev.e = "Step" /\ UNCHANGED grp
        /\ Judge(l, LET P == Pairs(grp.y, R)
                        n == Cardinality(P)
                        drawn == {<<ev.counts[i][1], ev.counts[i][2]>> : i \in DOMAIN ev.counts}
                    IN Fail(Members(ev) /\ ev.pairs = n, "members or pairs changed")
                       \cup Fail(ev.f = <<>> \/ RanksFit(ev.order, ev.ranks, ev.f), "ranks are not the order of the scores")
                       \cup Fail(drawn \subseteq P, "drawn: not an ordered pair of the group")
                       \cup Fail(ev.draws = 0 \/ (drawn = P /\ \A i \in DOMAIN ev.counts : Likely(ev.counts[i][3], ev.draws \div n)), "pairs are not equally likely"))
Count(b, c) == LET s == {i \in DOMAIN ev.counts : ev.counts[i][1] = b /\ ev.counts[i][2] = c}
               IN IF s = {} THEN 0 ELSE ev.counts[CHOOSE i \in s : TRUE][3]
Big == /\ ev.e = "Big" /\ UNCHANGED grp
       /\ Judge(l, LET B == DOMAIN ev.size
                       W(b, c) == IF ev.level[b] > ev.level[c] THEN ev.size[b] * ev.size[c] ELSE 0
                       T == FoldSet(LAMBDA p, a : a + W(p[1], p[2]), 0, B \X B)
                   IN Fail(ev.pairs = T /\ ev.rest = 0, "number of pairs")
                      \cup Fail(ev.outside = 0 /\ \A p \in B \X B : W(p[1], p[2]) = 0 => Count(p[1], p[2]) = 0, "drawn: not an ordered pair of the group")
                      \cup Fail(\A p \in B \X B : Likely(Count(p[1], p[2]), (ev.draws \div T) * W(p[1], p[2]) + (((ev.draws % T)) * W(p[1], p[2])) \div T), "pairs are not equally likely"))
Other == ev.e \notin {"Group", "Step", "Big"} /\ Judge(l, {ToString(ev)}) /\ UNCHANGED grp
TInit == l = 1 /\ grp = [rows |-> <<>>]
TNext == l <= Len(Trace) /\ (Opening \/ Step \/ Big \/ Other) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, grp>>
=============================================================================
