SPECIFICATION Spec
CONSTANTS
  NRows = 3
  ModelCodes = {0, 1, 2}
  ModelG <- SmallG
  Limits = {1, 2, 3, 4}
  ModelPar <- Par0
INVARIANTS LeavesPartitionRows NoEmptyLeaf WithinLimit GainsAddUp
PROPERTY Finishes
CHECK_DEADLOCK FALSE
