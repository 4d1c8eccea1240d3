SPECIFICATION Spec
CONSTANTS
  Data = {1, 2}
  Names = {"m"}
  Defects = {"none", "mode", "datagone", "modelsyntax", "loss", "misfit", "full", "fullscore"}
  Deep = 2
VIEW View
INVARIANTS FailsWithDefect NothingUnlessWriting Complete OthersKept
CHECK_DEADLOCK FALSE
