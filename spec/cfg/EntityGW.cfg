SPECIFICATION SpecSeq
VIEW View
CONSTANTS
  Threads = {1}
  MaxIndex = 2
  MaxVer = 3
  Yes = "yes"
  No = "no"
  Stale = FALSE
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
