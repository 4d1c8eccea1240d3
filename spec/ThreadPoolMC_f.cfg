SPECIFICATION Spec
CONSTANTS NWorkers = 3
 From <- F2
 Needs <- N2
 Await = TRUE
 Spurious = TRUE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
