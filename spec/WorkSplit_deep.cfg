SPECIFICATION Spec
CONSTANTS Ns = {0, 1, 4, 6}
 Ks = {1, 2, 5}
 NWorkers = 3
INVARIANTS EachOnce ResultsAreThoseOfOneWorker
PROPERTY Finishes
CHECK_DEADLOCK FALSE
