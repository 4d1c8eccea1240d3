----------------------------- MODULE SplitsGen ------------------------------
(* Stimuli: every table of N rows over codes {missing, 1, 2} and gradients.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT N
Row == [c : 0..2, g : {-2, 1}, h : {1, 2}]
Cases == UNION {{[rows |-> r] : r \in [1..n -> Row]} : n \in 0..N}
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.GEN, SetToSeq(Cases))
Spec == Init /\ [][Next]_x
=============================================================================
