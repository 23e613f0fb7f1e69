SPECIFICATION Spec
VIEW GView
CONSTANTS
  Index = {0, 1, 2}
  Ver = {1, 2}
  Val = {0, 1}
  Modulus = 4
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
