SPECIFICATION MSpec
VIEW View
CONSTANTS
  Comp = {0, 1}
  Zst = {0, 1}
  MaxIssued = 2
  Layouts <- Pair
  MaxBulk = 2
  Extras = {"extend", "bombs", "queue", "relayout"}
  Yes = "yes"
  No = "no"
  Retired <- NeverRetired
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
