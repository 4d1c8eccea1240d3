SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS LoopInv Done
PROPERTY Ends
CHECK_DEADLOCK FALSE
