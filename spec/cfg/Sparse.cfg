SPECIFICATION Spec
VIEW View
CONSTANTS
  Vec = {1, 2}
  Index = {0, 1, 2}
  Ver = {1, 2}
  Val = {0, 1}
  Defect = ""
INVARIANT One
PROPERTY Effects
CHECK_DEADLOCK FALSE
