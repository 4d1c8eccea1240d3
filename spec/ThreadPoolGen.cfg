SPECIFICATION Spec
CONSTANTS N = 3
 W = 3
CHECK_DEADLOCK FALSE
