SPECIFICATION Spec
CONSTANTS
  Comp = {0, 1}
  Ent = {1, 2}
  Defect = ""
VIEW View
INVARIANTS Once Intact Effect Conserved Leaks
CHECK_DEADLOCK FALSE
