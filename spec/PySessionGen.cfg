SPECIFICATION Spec
CONSTANTS
  Stores = {1}
  Handles = {1}
  ColNames = {"a", "b"}
  Types = {"bkt", "str"}
  Lens = {2}
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
