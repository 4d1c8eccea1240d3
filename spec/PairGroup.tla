------------------------------ MODULE PairGroup ------------------------------
(* Groups of rows and the ordered pairs in them (C18), with the index        *)
(* arithmetic of the code: pairs are numbered through in blocks of equal     *)
(* targets, and a number is turned back into a pair.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
\* ---- requirements; y[r + 1] is the target of row r -------------------------
Pairs(y, R) == {p \in R \X R : y[p[1] + 1] > y[p[2] + 1]}
RanksFit(order, ranks, f) ==
  /\ {ranks[i] : i \in DOMAIN ranks} = 0..(Len(order) - 1) /\ Len(ranks) = Len(order)
  /\ \A i, j \in DOMAIN order : f[order[i] + 1] > f[order[j] + 1] => ranks[i] < ranks[j]
\* ---- the numbering: t[i] targets in descending order, positions from 0 ------
At(t, i) == t[i + 1]
Bounds(t) == {i \in 1..(Len(t) - 1) : At(t, i - 1) # At(t, i)}
BlockStart(t, b) == IF \E c \in Bounds(t) : c < b THEN Max({c \in Bounds(t) : c < b}) ELSE 0
\* number of pairs whose first element lies before b
Upto(t, b) == FoldSet(LAMBDA c, a : a + (c - BlockStart(t, c)) * (Len(t) - c), 0, {c \in Bounds(t) : c <= b})
NumPairs(t) == Upto(t, Len(t))
PairAt(t, k) ==
  LET b == Min({c \in Bounds(t) : Upto(t, c) >= k + 1})
      size == b - BlockStart(t, b)
      local == Upto(t, b) - k - 1
  IN <<b - 1 - (local % size), b + (local \div size)>>
=============================================================================
