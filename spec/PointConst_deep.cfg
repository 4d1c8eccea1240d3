SPECIFICATION Spec
CONSTANTS K = 16
 Rows = 3
 Span = 5
 MaxK = 10
 Bracket = TRUE
INVARIANTS Bracketed Balanced
PROPERTY Finishes
CHECK_DEADLOCK FALSE
