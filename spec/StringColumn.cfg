SPECIFICATION Spec
CONSTANTS
  Strings = {0, 1, 2, 3}
  MaxRows = 6
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
