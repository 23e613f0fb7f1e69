SPECIFICATION Spec
VIEW View
CONSTANTS
  Index = {0, 1, 2}
  Ver = {1, 2}
  Val = {0, 1}
  Modulus = 4
  Defect = ""
INVARIANTS Total Agree Entries Listed
PROPERTY Results
CHECK_DEADLOCK FALSE
