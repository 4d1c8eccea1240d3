------------------------------ MODULE Boosting ------------------------------
(* Gradient boosting as a state machine.  The forest is the constant tree    *)
(* followed by the base forest's trees and one tree per iteration.  F is the *)
(* running function value of every row, which the loss function is shown.    *)
(* Trees are abstracted to the score they give to each row; scores and the   *)
(* learning rate are in eighths (a fitted score of s becomes s * Shrink/8).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NRows, Scores, Consts, Shrinks, NTrees, BaseForests
Rows == 1..NRows
VARIABLES shrink, base, const, trees, F, shown, phase, status
vars == <<shrink, base, const, trees, F, shown, phase, status>>
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
\* what a forest (constant, list of row scores) predicts for a row
Predict(c, ts, i) == c + SumSeq([k \in DOMAIN ts |-> ts[k][i]])
IsConstant(t) == \A i \in Rows : t[i] = t[1]     \* stands for a tree of one node
BaseConst(b) == SumSeq([k \in DOMAIN b |-> IF IsConstant(b[k]) THEN b[k][1] ELSE 0])
BaseTrees(b) == SelectSeq(b, LAMBDA t : ~IsConstant(t))

Init == /\ shrink \in Shrinks /\ base \in BaseForests
        /\ const = BaseConst(base) /\ trees = BaseTrees(base)
        /\ F = [i \in Rows |-> Predict(0, base, i)]
        /\ shown = <<>> /\ phase = "loss" /\ status = "OK"
Made == Len(trees) - Len(BaseTrees(base))
\* the loss looks at F and returns a constant, then a tree is fitted, scaled and added
Iterate(c, t) ==
  /\ phase = "loss" /\ Made < NTrees
  /\ shown' = Append(shown, F)
  /\ const' = const + c
  /\ trees' = Append(trees, [i \in Rows |-> t[i] * shrink])
  /\ F' = [i \in Rows |-> F[i] + t[i] * shrink + c]
  /\ UNCHANGED <<shrink, base, phase, status>>
Diverge == /\ phase = "loss" /\ Made < NTrees /\ shown' = Append(shown, F)
           /\ phase' = "done" /\ status' = "INTERNAL" /\ UNCHANGED <<shrink, base, const, trees, F>>
Finish == phase = "loss" /\ Made = NTrees /\ phase' = "done" /\ UNCHANGED <<shrink, base, const, trees, F, shown, status>>
Next == (\E c \in Consts, t \in [Rows -> Scores] : Iterate(c, t)) \/ Diverge \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RunningSumIsForest == \A i \in Rows : F[i] = Predict(const, trees, i)
LossSawPrefix ==
  \A k \in DOMAIN shown : \A i \in Rows :
     \* the k-th value shown misses exactly the last trees and constants
     k < Len(shown) => shown[k + 1][i] - shown[k][i] = trees[Len(BaseTrees(base)) + k][i] + ((shown[k + 1][1] - shown[k][1]) - trees[Len(BaseTrees(base)) + k][1])
BaseKept == SubSeq(trees, 1, Len(BaseTrees(base))) = BaseTrees(base)
DoneMeansAll == (phase = "done" /\ status = "OK") => Made = NTrees /\ Len(shown) = NTrees
Terminates == <>(phase = "done")
=============================================================================
