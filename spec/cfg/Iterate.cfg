SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxItems = 4
  MaxPieces = 3
  MaxSkip = 1
  Defect = ""
INVARIANTS Once All Apart
CHECK_DEADLOCK FALSE
