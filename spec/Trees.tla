------------------------------- MODULE Trees --------------------------------
(* Best-first growth of one regression tree on gradients.                    *)
(* The design model: leaves is the set of current leaves (sets of rows);     *)
(* every step splits a leaf of largest gain, over all features.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

CONSTANTS NRows, ModelCodes, ModelG, Limits, ModelPar

SP == INSTANCE Splits WITH ScanG <- {}, ScanH <- {}, ScanCodes <- {}, ScanRows <- 0, ScanParams <- {}, ScanType <- "",
                           rows <- <<>>, par <- <<>>

\* probs: one split problem per feature; types: its type
BestGain(probs, types, S) == Max({SP!MaxGain(probs[f], S, types[f]) : f \in DOMAIN probs} \cup {-1})

VARIABLES x1, x2, g, limit, leaves, energy
vars == <<x1, x2, g, limit, leaves, energy>>
AllRows == 1..NRows
Base == [w |-> [i \in AllRows |-> 1], g |-> g, h |-> [i \in AllRows |-> 1], lam4 |-> ModelPar[1], minh4 |-> ModelPar[2], ming4 |-> ModelPar[3]]
Prob(x) == [code |-> x, w |-> Base.w, g |-> Base.g, h |-> Base.h, lam4 |-> Base.lam4, minh4 |-> Base.minh4, ming4 |-> Base.ming4]
Probs == [f \in {"a", "b"} |-> IF f = "a" THEN Prob(x1) ELSE Prob(x2)]
Types == [f \in {"a", "b"} |-> IF f = "a" THEN "bkt" ELSE "str"]
Best(S) == BestGain(Probs, Types, S)

Init == /\ x1 \in [AllRows -> ModelCodes] /\ x2 \in [AllRows -> ModelCodes] /\ g \in [AllRows -> ModelG]
        /\ limit \in Limits /\ leaves = {AllRows} /\ energy = SP!Energy(Base, AllRows)
Admissible(S) == Best(S) > SP!MinGain(Base) /\ Best(S) > 0
Split(S) ==
  /\ Cardinality(leaves) < limit /\ Admissible(S)
  /\ \A T \in leaves : Best(T) <= Best(S)
  /\ \E f \in {"a", "b"} : \E L \in SP!Candidates(Probs[f], S, Types[f]) :
       /\ SP!HeavyEnough(Probs[f], S, L) /\ SP!Gain(Probs[f], S, L) = Best(S)
       /\ leaves' = (leaves \ {S}) \cup {L, S \ L}
       /\ energy' = energy + SP!Gain(Probs[f], S, L)
  /\ UNCHANGED <<x1, x2, g, limit>>
Next == \E S \in leaves : Split(S)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

LeavesPartitionRows == UNION leaves = AllRows /\ \A S, T \in leaves : S # T => S \cap T = {}
NoEmptyLeaf == {} \notin leaves
WithinLimit == Cardinality(leaves) <= limit
\* the recorded gains account exactly for the improvement of the objective
GainsAddUp == energy = FoldSet(LAMBDA S, a : a + SP!Energy(Base, S), 0, leaves)
Finishes == <>[](Cardinality(leaves) = limit \/ \A S \in leaves : ~Admissible(S))

\* ---- requirements on a finished tree -------------------------------------------
\* tree: nodes; rowsOf: node -> rows; frontier: nodes not yet judged
RECURSIVE Replay(_, _, _, _)
\* best-first: some largest-gain node of the frontier is an inner node, as long as inner nodes remain
Replay(tree, best, frontier, tol) ==
  LET Inner == {n \in frontier : tree[n].l # 0}
  IN IF Inner = {} THEN TRUE
     ELSE LET n == CHOOSE m \in Inner : \A k \in Inner : best[k] <= best[m]
          IN /\ \A k \in frontier : best[k] <= best[n] + tol
             /\ Replay(tree, best, (frontier \ {n}) \cup {tree[n].l, tree[n].r}, tol)
=============================================================================
