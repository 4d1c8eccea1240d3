SPECIFICATION Spec
CONSTANTS
  NRows = 3
  ModelCodes = {0, 1}
  ModelG <- SmallG
  Limits = {1, 2, 4}
  ModelPar <- Par1
INVARIANTS LeavesPartitionRows NoEmptyLeaf WithinLimit GainsAddUp
PROPERTY Finishes
CHECK_DEADLOCK FALSE
