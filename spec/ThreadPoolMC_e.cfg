SPECIFICATION Spec
CONSTANTS NWorkers = 3
 From <- F4
 Needs <- N4
 Await = TRUE
 Spurious = TRUE
INVARIANT Invs
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
