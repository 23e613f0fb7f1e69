SPECIFICATION Spec
VIEW View
CONSTANTS
  Comp = {0, 1}
  MaxIndex = 2
  MaxVer = 2
  Vals = {0}
  Layouts <- PairFlat
  MaxBulk = 2
  Yes = Yes
  No = No
  Defect = ""
INVARIANTS Contents Slots GroupsOK QueriesOK OneOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
