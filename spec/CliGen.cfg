SPECIFICATION Spec
CONSTANTS
  Data = {1}
  Names = {"m"}
  Defects = {"none", "mode", "noconfig", "noout", "nomodel", "configgone", "configdir", "configempty", "configsyntax", "configtype",
             "nodata", "datagone", "datadir", "float", "width", "column", "rows", "dtype", "modelgone", "modeldir", "modelempty", "modelsyntax",
             "loss", "settings", "misfit", "outgone", "outfile", "full", "isdir", "fullimps", "isdirimps", "fullscore", "isdirscore"}
  Deep = 2
VIEW GenView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
