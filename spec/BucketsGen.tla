---------------------------- MODULE BucketsGen -----------------------------
(* Stimuli: every column of up to N rows over NaN and three values, every    *)
(* budget up to 3, every division into 2 batches.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT N
NaN == 2147483647
\* -1.0, 0, 1.0 as order preserving integers
V == {NaN, -1065353216, 0, 1065353216}
Rows == UNION {[1..n -> V] : n \in 0..N}
Cases == UNION {{[budget |-> k, b |-> <<SubSeq(r, 1, d), SubSeq(r, d + 1, Len(r))>>] : d \in 0..Len(r), k \in 1..3} : r \in Rows}
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.GEN, SetToSeq(Cases))
Spec == Init /\ [][Next]_x
=============================================================================
