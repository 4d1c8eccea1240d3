SPECIFICATION Spec
CONSTANTS N = 3
 MaxDraws = 1
 MaxIter = 2
INVARIANTS Cancels OnlyInPairs IsTheSum
PROPERTY Finishes
CHECK_DEADLOCK FALSE
