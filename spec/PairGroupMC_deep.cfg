SPECIFICATION Spec
CONSTANTS MaxRows = 7
 MaxTarget = 7
INVARIANTS OnlyPairs NumberingIsABijection RankedByScore
CHECK_DEADLOCK FALSE
