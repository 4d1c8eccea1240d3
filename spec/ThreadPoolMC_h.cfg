SPECIFICATION Spec
CONSTANTS NWorkers = 3
 From <- F3
 Needs <- N3
 Await = TRUE
 Spurious = TRUE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
