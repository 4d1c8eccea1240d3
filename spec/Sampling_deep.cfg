SPECIFICATION Spec
CONSTANTS D = 4
 Seeds = {1, 2}
 MaxN = 3
 MaxOps = 4
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
