SPECIFICATION Spec
VIEW GView
CONSTANTS
  MaxItems = 4
  MaxPieces = 3
  MaxSkip = 1
  Defect = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
