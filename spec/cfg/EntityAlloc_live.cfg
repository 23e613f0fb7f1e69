SPECIFICATION FairSpec
CONSTANTS
  Threads = {t1, t2}
  MaxIndex = 2
  MaxVer = 2
  Yes = Yes
  No = No
  Stale = TRUE
  Defect = ""
PROPERTY Returns
CHECK_DEADLOCK FALSE
