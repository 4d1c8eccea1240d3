SPECIFICATION GSpec
CONSTANTS
  Names = {"a", "b", "c"}
  Types = {"str", "bkt", "raw"}
  Rows = {0, 1, 3}
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
