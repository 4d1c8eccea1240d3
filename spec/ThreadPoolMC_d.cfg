SPECIFICATION Spec
CONSTANTS NWorkers = 2
 From <- F3
 Needs <- N3
 Await = FALSE
 Spurious = TRUE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
