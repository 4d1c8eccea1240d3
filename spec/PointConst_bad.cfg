SPECIFICATION Spec
CONSTANTS K = 16
 Rows = 2
 Span = 6
 MaxK = 10
 Bracket = FALSE
INVARIANTS Bracketed Balanced
PROPERTY Finishes
CHECK_DEADLOCK FALSE
