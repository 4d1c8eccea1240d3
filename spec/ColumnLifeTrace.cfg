SPECIFICATION TSpec
CONSTANT Batches <- NoBatches
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
