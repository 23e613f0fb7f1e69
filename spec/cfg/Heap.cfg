SPECIFICATION Spec
CONSTANTS
  Type = {"a", "b"}
  Layouts = {{}, {{"a", "b"}}}
  Max = 2
  Defect = ""
CONSTRAINT Small
VIEW View
INVARIANTS Matched Returned Bounded Fits
CHECK_DEADLOCK FALSE
