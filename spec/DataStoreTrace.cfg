SPECIFICATION TSpec
CONSTANTS
  Names = {"a", "b", "c", "d", "e", "__missing__"}
  Types = {"str", "bkt", "raw"}
  Rows = {0, 1, 2, 3}
INVARIANTS EqualRows ListingPartition
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
