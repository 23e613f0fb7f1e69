SPECIFICATION Spec
CONSTANTS
  Type = {"a", "b"}
  Layouts = {{}, {{"a", "b"}}}
  Max = 2
  Defect = ""
CONSTRAINT Small
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
