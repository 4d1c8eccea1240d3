SPECIFICATION Spec
CONSTANTS MaxSize = 4
 MaxPoints = 4
 Low <- LowPoint
 High = 5
INVARIANTS FilesAreRight AllWritten
PROPERTY Ends
CHECK_DEADLOCK FALSE
