---------------------------- MODULE PointLossTrace ---------------------------
(* Recorded calls of pointwise losses (mode "point").  The first run of a    *)
(* case binds the answer for every row identity; the other runs (other row   *)
(* orders, rows added with weight zero, repeated rows instead of weights,    *)
(* other thread counts, junk in the output) have to give the same.           *)
EXTENDS Losses, TraceLib, SequencesExt
VARIABLES l, first, began   \* began: the first loss the object reported, -1 none yet, -2 none possible
ev == Trace[l]
Sum(f(_), n) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
N == Len(ev.ids)
\* m: score plus constant in units (clamped), s: logistic of y times that
Expected(i) ==
  LET y == ev.y[i]   m == ev.m[i]   sgn == IF y < 0 THEN -1 ELSE 1
  IN CASE ev.loss = "mse" -> <<y * 1250 - m, U>>
       [] ev.loss = "huberized_hinge" -> LET e == sgn * m IN <<sgn * Hinge(e)[1], Hinge(e)[2]>>
       [] OTHER -> LET p == Logistic(ev.s[i]) IN <<sgn * p[1], p[2]>>
\* the gradient is taken where the constant was before its last correction
Slack == 3
KinkNear(i) == ev.loss = "huberized_hinge" /\ LET e == Abs(ev.m[i]) IN e <= Slack \/ Abs(e - U) <= Slack
\* with one class only there is no best constant, and none is converged to
OneSided == ev.loss = "logloss" /\ Cardinality({ev.y[i] : i \in {j \in 1..N : ev.w[j] > 0}}) <= 1
\* nor where hardly any row has curvature: Newton's steps do not get short there
Flat == ev.loss = "logloss" /\ \A i \in 1..N : ev.w[i] > 0 => Expected(i)[2] <= 5
RowFails(i) == IF OneSided \/ Flat THEN Fail(ev.g[i] * ev.y[i] >= 0 /\ Abs(ev.g[i]) <= U /\ ev.h[i] \in 0..((U + 2) \div 4), "gradient of a row")
               ELSE LET x == Expected(i)
               IN Fail(Near(ev.g[i], x[1], Slack + Abs(x[1]) \div 100000), "gradient of a row")
                  \cup Fail(KinkNear(i) \/ Near(ev.h[i], x[2], Slack), "curvature of a row")
\* weighted sums, weights in quarters
G == Sum(LAMBDA i : ev.w[i] * ev.g[i], N)
H == Sum(LAMBDA i : ev.w[i] * ev.h[i], N)
WSum == Sum(LAMBDA i : ev.w[i], N)
\* rounding of every row, and the convergence threshold 1e-4 times the curvature
Balanced == H = 0 \/ Flat \/ Abs(G) <= WSum + H \div U + 4
\* the progress message: the reduction (1e-4 of the first loss reported) belongs to the two losses
ReductionOK(init, said, red) ==
  init <= 0 \/ init > 100000 \/ said > 1000000 \/ Abs(U - red) > 199999
  \/ Near(Mul(init, U - red), said, 3 + init \div U + (Abs(U - red) \div U))
\* the loss reported in the progress message is the weighted mean
Tens(i) == Abs(ev.y[i] * 1250 - ev.m[i]) \div 100
RowLoss(i) ==
  LET e == (IF ev.y[i] < 0 THEN -1 ELSE 1) * ev.m[i]
  IN CASE ev.loss = "mse" -> Tens(i) * Tens(i)
       [] ev.loss = "huberized_hinge" -> IF e >= U THEN 0 ELSE IF e >= 0 THEN ((U - e) * (U - e)) \div (2 * U) ELSE U \div 2 - e
       [] OTHER -> ev.lrow[i]
LossSlack == IF ev.loss = "mse" THEN 10 + 2 * Tens(CHOOSE i \in 1..N : \A j \in 1..N : Tens(i) >= Tens(j)) ELSE 10
\* small enough to be added up
Addable == IF ev.loss = "mse" THEN \A i \in 1..N : Tens(i) <= (IF N <= 12 THEN 3000 ELSE 1000)
           ELSE \A i \in 1..N : RowLoss(i) <= 1000000
LossOK == ~ev.said \/ OneSided \/ Flat \/ WSum = 0 \/ ~Addable
          \/ LET x == Sum(LAMBDA i : ev.w[i] * RowLoss(i), N) \div WSum
             IN Near(ev.loss_said, x, LossSlack + x \div 50000)
Before == IF ev.call = 1 THEN -1 ELSE began
Reported == ~ev.said \/ ~ev.finite \/ Before = -2 \/ (ev.red_finite /\ ReductionOK(IF Before >= 0 THEN Before ELSE ev.loss_said, ev.loss_said, ev.red_said))
\* the same rows otherwise written down: total weight per identity
WeightOf(e, k) == FoldLeft(LAMBDA a, i : a + (IF e.ids[i] = k THEN e.w[i] ELSE 0), 0, [i \in 1..Len(e.ids) |-> i])
SameProblem == /\ first.loss = ev.loss /\ first.call = ev.call
               /\ \A k \in SetOf(first.ids) \cup SetOf(ev.ids) : WeightOf(first, k) = WeightOf(ev, k)
Matches ==
  \* where the sum of the losses is flat to the last digit there is no one constant
  Fail(H = 0 \/ Flat \/ Near(ev.const, first.const, 5 + Abs(first.const) \div 20000), "the constant depends on the order, threads, weight splitting or earlier content")
  \cup Fail(\A i \in 1..N : \A j \in 1..Len(first.ids) : (ev.ids[i] = first.ids[j]) =>
              (Near(ev.g[i], first.g[j], 5 + Abs(first.g[j]) \div 20000) /\ (KinkNear(i) \/ Near(ev.h[i], first.h[j], 5))) \/ (Flat /\ ev.w[i] = 0), "the gradient of a row depends on something else")
PointFails == Fail(ev.ok, "refused")
              \cup IF Len(ev.g) # N THEN {"number of gradients"}
                   ELSE UNION {RowFails(i) : i \in 1..N} \cup Fail(OneSided \/ Balanced, "the constant does not balance the gradients")
                        \cup Fail(LossOK, "the reported loss is not the mean loss")
                        \cup Fail(~ev.said \/ ev.readable, "unreadable message") \cup Fail(Reported, "the reported reduction")
Point == /\ ev.e = "Point"
         /\ began' = IF ev.said /\ Before = -1 THEN (IF ev.finite THEN ev.loss_said ELSE -2) ELSE Before
         /\ IF first.c = ev.c /\ SameProblem
            THEN Judge(l, PointFails \cup IF Len(ev.g) # N THEN {} ELSE Matches) /\ UNCHANGED first
            ELSE Judge(l, PointFails) /\ first' = IF ev.call = 1 /\ first.c # ev.c THEN ev ELSE first
Other == ev.e # "Point" /\ Judge(l, {ToString(ev)}) /\ UNCHANGED <<first, began>>
TInit == l = 1 /\ first = [c |-> -1] /\ began = -1
TNext == l <= Len(Trace) /\ (Point \/ Other) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, first, began>>
=============================================================================
