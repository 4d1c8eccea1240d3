----------------------------- MODULE PairGroupMC -----------------------------
(* For all target multisets within bounds the numbering is a bijection onto  *)
(* the ordered pairs, so that a uniform number is a uniform pair; re-ranking *)
(* (any order of scores) changes neither members nor pairs.                  *)
EXTENDS PairGroup
CONSTANTS MaxRows, MaxTarget
VARIABLES t, ranks, f, drawn
vars == <<t, ranks, f, drawn>>
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] >= q[i + 1]
Rows == 0..(Len(t) - 1)
Init == /\ t \in UNION {{q \in [1..n -> 1..MaxTarget] : Sorted(q)} : n \in 0..MaxRows}
        /\ ranks = [i \in 1..Len(t) |-> i - 1] /\ f = [i \in 1..Len(t) |-> 0] /\ drawn = {}
Draw == /\ NumPairs(t) > 0 /\ \E k \in 0..(NumPairs(t) - 1) : drawn' = drawn \cup {PairAt(t, k)}
        /\ Cardinality(drawn) < 2
        /\ UNCHANGED <<t, ranks, f>>
Rerank == /\ Len(t) <= 3
          /\ \E g \in [1..Len(t) -> 1..2], r \in [1..Len(t) -> 0..(Len(t) - 1)] :
               RanksFit([i \in 1..Len(t) |-> i - 1], r, g) /\ ranks' = r /\ f' = g
          /\ UNCHANGED <<t, drawn>>
Next == Draw \/ Rerank
Spec == Init /\ [][Next]_vars
OnlyPairs == drawn \subseteq Pairs(t, Rows)
NumberingIsABijection == /\ NumPairs(t) = Cardinality(Pairs(t, Rows))
             /\ {PairAt(t, k) : k \in 0..(NumPairs(t) - 1)} = Pairs(t, Rows)
RankedByScore == RanksFit([i \in 1..Len(t) |-> i - 1], ranks, f)
=============================================================================
