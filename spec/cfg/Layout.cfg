SPECIFICATION Spec
VIEW View
CONSTANTS
  Comp = {0, 1, 2, 3, 4, 5}
  MaxArity = 6
  MaxGroups = 64
  Defect = ""
INVARIANTS Declared WellFormed
PROPERTY Decided
CHECK_DEADLOCK FALSE
