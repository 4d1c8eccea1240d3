SPECIFICATION Spec
CONSTANTS Ns = {0, 1, 3, 5}
 Ks = {1, 2, 5}
 NWorkers = 2
INVARIANTS EachOnce ResultsAreThoseOfOneWorker
PROPERTY Finishes
CHECK_DEADLOCK FALSE
