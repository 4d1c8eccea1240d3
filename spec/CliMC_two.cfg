SPECIFICATION Spec
CONSTANTS
  Data = {1}
  Names = {"m", "n"}
  Defects = {"none", "mode", "datagone", "modelsyntax", "loss", "misfit", "full", "fullscore"}
  Deep = 2
VIEW View
INVARIANTS FailsWithDefect NothingUnlessWriting Complete OthersKept
CHECK_DEADLOCK FALSE
