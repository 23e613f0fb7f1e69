SPECIFICATION Spec
VIEW View
CONSTANTS
  Comp = {0, 1}
  MaxIndex = 2
  MaxVer = 2
  Vals = {0}
  Layouts <- PairFlat
  MaxBulk = 2
  Yes = "yes"
  No = "no"
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
