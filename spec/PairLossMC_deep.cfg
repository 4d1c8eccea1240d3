SPECIFICATION Spec
CONSTANTS N = 4
 MaxDraws = 2
 MaxIter = 2
INVARIANTS Cancels OnlyInPairs IsTheSum
PROPERTY Finishes
CHECK_DEADLOCK FALSE
