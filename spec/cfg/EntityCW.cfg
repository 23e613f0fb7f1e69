SPECIFICATION SpecCW
VIEW View
CONSTANTS
  Threads = {1, 2}
  MaxIndex = 3
  MaxVer = 2
  Yes = "yes"
  No = "no"
  Stale = FALSE
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
