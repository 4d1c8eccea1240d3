SPECIFICATION Spec
CONSTANTS NWorkers = 2
 From <- F2
 Needs <- N2
 Await = FALSE
 Spurious = TRUE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
