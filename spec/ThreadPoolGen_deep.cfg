SPECIFICATION Spec
CONSTANTS N = 4
 W = 3
CHECK_DEADLOCK FALSE
