SPECIFICATION Spec
CONSTANTS NWorkers = 2
 From <- F5
 Needs <- N5
 Await = FALSE
 Spurious = FALSE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
