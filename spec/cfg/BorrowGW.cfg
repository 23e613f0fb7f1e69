SPECIFICATION Spec
VIEW View
CONSTANTS
  Comp = {0, 1}
  Slots = {1, 2}
  MaxParts = 2
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
