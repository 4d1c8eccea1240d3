SPECIFICATION Spec
CONSTANTS
  ScanG <- Gs
  ScanH = {1, 2}
  ScanCodes = {0, 1, 2}
  ScanRows = 3
  ScanParams <- Params
  ScanType = "str"
INVARIANT ScanIsOptimal
CHECK_DEADLOCK FALSE
