SPECIFICATION Spec
CONSTANTS D = 3
 Seeds = {1, 2}
 MaxN = 2
 MaxOps = 4
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
