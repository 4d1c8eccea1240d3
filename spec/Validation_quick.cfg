SPECIFICATION Spec
CONSTANTS Loss = "lambdamart"
 MaxCalls = 1
INVARIANTS VerdictRight StoreUsable
PROPERTY Answered
CHECK_DEADLOCK FALSE
