SPECIFICATION Spec
CONSTANTS NBlocks = 3
 NCols = 3
 NWorkers = 2
 BadBlocks = {2}
INVARIANTS OkMeansAll ErrorMeansBad Prefixes
PROPERTY Ends
CHECK_DEADLOCK FALSE
