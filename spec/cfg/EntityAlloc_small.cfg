SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  MaxIndex = 2
  MaxVer = 2
  Yes = Yes
  No = No
  Stale = TRUE
  Defect = ""
INVARIANTS InWorld Recycled Queue Counters Abstract
PROPERTY Refines
CHECK_DEADLOCK FALSE
