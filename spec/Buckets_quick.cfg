SPECIFICATION Spec
CONSTANTS
  NaN = 9
  Top = 8
  Values = {1, 2, 3, 4, 8}
  MaxRows = 5
  MaxBudget = 4
INVARIANT AlgorithmMeetsRequirements
CHECK_DEADLOCK FALSE
