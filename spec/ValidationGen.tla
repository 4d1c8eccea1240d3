---------------------------- MODULE ValidationGen ----------------------------
(* Stimuli: every request that differs from a good one in at most two settings, for every loss name. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
V == INSTANCE Validation WITH Loss <- "mse", MaxCalls <- 0, req <- 0, stage <- 0, verdict <- 0, store <- 0, calls <- 0
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.GEN, SetToSeq(UNION {V!Requests(n) : n \in V!LossNames}))
Spec == Init /\ [][Next]_x
=============================================================================
