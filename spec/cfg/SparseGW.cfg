SPECIFICATION Spec
VIEW View
CONSTANTS
  Vec = {1}
  Index = {0, 1, 3}
  Ver = {1, 2}
  Val = {0, 1}
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
