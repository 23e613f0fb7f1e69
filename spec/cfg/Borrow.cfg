SPECIFICATION Spec
VIEW View
CONSTANTS
  Comp = {0, 1}
  Slots = {1, 2, 3}
  MaxParts = 2
  Defect = ""
INVARIANTS Exact Excluded
PROPERTY Decided
CHECK_DEADLOCK FALSE
