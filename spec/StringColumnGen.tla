-------------------------- MODULE StringColumnGen --------------------------
(* Stimuli: every sequence of up to 5 strings out of 3, in every division    *)
(* into at most 3 batches (empty batches included).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT N
Rows == UNION {[1..n -> 0..2] : n \in 0..N}
Divs(n) == {<<a, b>> \in (0..n) \X (0..n) : a <= b}
Cases == UNION {{[b |-> <<SubSeq(r, 1, d[1]), SubSeq(r, d[1] + 1, d[2]), SubSeq(r, d[2] + 1, Len(r))>>] : d \in Divs(Len(r))} : r \in Rows}
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.GEN, SetToSeq(Cases))
Spec == Init /\ [][Next]_x
=============================================================================
