SPECIFICATION Spec
CONSTANTS Loss = "lambdamart"
 MaxCalls = 2
INVARIANTS VerdictRight StoreUsable
PROPERTY Answered
CHECK_DEADLOCK FALSE
