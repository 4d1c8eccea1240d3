SPECIFICATION Spec
CONSTANTS MaxSize = 3
 MaxPoints = 3
 Low <- LowPoint
 High = 4
INVARIANTS FilesAreRight AllWritten
PROPERTY Ends
CHECK_DEADLOCK FALSE
