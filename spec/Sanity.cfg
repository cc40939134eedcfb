SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Steps = 4
  Bug = "none"
INVARIANTS Honest Sticky
VIEW View
CHECK_DEADLOCK FALSE
