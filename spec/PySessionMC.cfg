SPECIFICATION Spec
CONSTANTS
  Stores = {1, 2}
  Handles = {1}
  ColNames = {"a", "b"}
  Types = {"bkt", "str"}
  Lens = {0, 2}
VIEW View
INVARIANTS Rectangular EmptyHasNoColumns
PROPERTIES FailureChangesNothing HandlesNeverChange OneStoreAtATime
CHECK_DEADLOCK FALSE
