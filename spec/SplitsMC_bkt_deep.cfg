SPECIFICATION Spec
CONSTANTS
  ScanG <- Gs
  ScanH = {1, 2}
  ScanCodes = {0, 1, 2}
  ScanRows = 4
  ScanParams <- Params
  ScanType = "bkt"
INVARIANT ScanIsOptimal
CHECK_DEADLOCK FALSE
