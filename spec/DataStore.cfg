SPECIFICATION Spec
CONSTANTS
  Names = {a, b, c, d}
  Types = {str, bkt, raw}
  Rows = {0, 1, 2, 3}
INVARIANTS TypeOK EqualRows ListingPartition
PROPERTIES Stable FailedAddIsNoop
CHECK_DEADLOCK FALSE
