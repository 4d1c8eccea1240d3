SPECIFICATION Spec
CONSTANTS NRows = 2
 Scores <- MCScores
 Consts <- MCConsts
 Shrinks = {1, 8}
 NTrees = 4
 BaseForests <- MCBase
INVARIANTS RunningSumIsForest LossSawPrefix BaseKept DoneMeansAll
PROPERTY Terminates
CHECK_DEADLOCK FALSE
