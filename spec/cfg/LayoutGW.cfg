SPECIFICATION Spec
VIEW View
CONSTANTS
  Comp = {0, 1, 2, 3, 4}
  MaxArity = 16
  MaxGroups = 64
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
