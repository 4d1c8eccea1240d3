SPECIFICATION Spec
CONSTANTS MaxRows = 5
 MaxTarget = 4
INVARIANTS OnlyPairs NumberingIsABijection RankedByScore
CHECK_DEADLOCK FALSE
