------------------------------ MODULE PairLossMC -----------------------------
(* Accumulation of pairwise gradients: rows are divided into groups, workers *)
(* take groups, every drawn pair adds to its better and subtracts from its   *)
(* worse row.  Old content is erased first.  Whatever is drawn, in whichever *)
(* interleaving, gradients cancel within every group and rows in no pair     *)
(* have none.                                                                *)
EXTENDS PairGroup
CONSTANTS N, MaxDraws, MaxIter
VARIABLES y, cls, g, st, iter, todo, cur, left, log, half
vars == <<y, cls, g, st, iter, todo, cur, left, log, half>>
Rows == 0..(N - 1)
Workers == {1, 2}
Groups == {cls[r + 1] : r \in Rows}
MembersOf(c) == {r \in Rows : cls[r + 1] = c}
None == <<-1, -1>>
Init == /\ y \in [1..N -> 1..2] /\ cls \in [1..N -> 1..2] /\ \A r \in Rows : cls[r + 1] = 2 => \E q \in 0..(r - 1) : cls[q + 1] = 1
        /\ g = [r \in Rows |-> 9] /\ st = "idle" /\ iter = 0 /\ todo = {} /\ cur = [w \in Workers |-> 0]
        /\ left = [w \in Workers |-> 0] /\ log = <<>> /\ half = [w \in Workers |-> None]
Begin == /\ st = "idle" /\ iter < MaxIter /\ iter' = iter + 1 /\ st' = "run"
         /\ g' = [r \in Rows |-> 0] /\ todo' = Groups /\ log' = <<>> /\ UNCHANGED <<y, cls, cur, left, half>>
Take(w) == /\ st = "run" /\ cur[w] = 0 /\ \E c \in todo : cur' = [cur EXCEPT ![w] = c] /\ todo' = todo \ {c}
           /\ left' = [left EXCEPT ![w] = MaxDraws] /\ UNCHANGED <<y, cls, g, st, iter, log, half>>
Drawn(p) == 1 + y[p[1] + 1] - y[p[2] + 1]       \* some contribution depending on the pair
First(w) == /\ cur[w] # 0 /\ left[w] > 0 /\ half[w] = None
            /\ \E p \in Pairs(y, MembersOf(cur[w])) :
                 /\ g' = [g EXCEPT ![p[1]] = @ + Drawn(p)] /\ half' = [half EXCEPT ![w] = p] /\ log' = Append(log, p)
            /\ UNCHANGED <<y, cls, st, iter, todo, cur, left>>
Second(w) == /\ half[w] # None /\ g' = [g EXCEPT ![half[w][2]] = @ - Drawn(half[w])]
             /\ half' = [half EXCEPT ![w] = None] /\ left' = [left EXCEPT ![w] = @ - 1]
             /\ UNCHANGED <<y, cls, st, iter, todo, cur, log>>
Leave(w) == /\ cur[w] # 0 /\ half[w] = None /\ (left[w] = 0 \/ Pairs(y, MembersOf(cur[w])) = {})
            /\ cur' = [cur EXCEPT ![w] = 0] /\ UNCHANGED <<y, cls, g, st, iter, todo, left, log, half>>
End == /\ st = "run" /\ todo = {} /\ \A w \in Workers : cur[w] = 0 /\ st' = "idle"
       /\ UNCHANGED <<y, cls, g, iter, todo, cur, left, log, half>>
Next == Begin \/ End \/ \E w \in Workers : Take(w) \/ First(w) \/ Second(w) \/ Leave(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Settled == st = "idle" /\ iter > 0
SumOver(S) == FoldSet(LAMBDA r, a : a + g[r], 0, S)
Cancels == Settled => \A c \in Groups : SumOver(MembersOf(c)) = 0
OnlyInPairs == Settled => \A r \in Rows : (\A i \in DOMAIN log : r \notin {log[i][1], log[i][2]}) => g[r] = 0
IsTheSum == Settled => \A r \in Rows : g[r] = FoldLeft(LAMBDA a, p : a + (IF p[1] = r THEN Drawn(p) ELSE 0) - (IF p[2] = r THEN Drawn(p) ELSE 0), 0, log)
Finishes == <>(st = "idle" /\ iter = MaxIter)
=============================================================================
