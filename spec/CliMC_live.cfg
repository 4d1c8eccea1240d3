SPECIFICATION Spec
CONSTANTS
  Data = {1}
  Names = {"m"}
  Defects = {"none", "mode", "modelsyntax", "misfit", "full", "fullscore"}
  Deep = 2
VIEW View
PROPERTIES Ends
CHECK_DEADLOCK FALSE
