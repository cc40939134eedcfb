SPECIFICATION Spec
CONSTANTS
  Rows = 3
  Steps = 4
  Bug = "first"
INVARIANTS Honest Sticky
VIEW View
CHECK_DEADLOCK FALSE
