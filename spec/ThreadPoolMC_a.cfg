SPECIFICATION Spec
CONSTANTS NWorkers = 2
 From <- F1
 Needs <- N1
 Await = TRUE
 Spurious = TRUE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
