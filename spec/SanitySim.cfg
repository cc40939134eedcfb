SPECIFICATION Spec
CONSTANTS
  Rows = 5
  Steps = 10
  Bug = "none"
INVARIANTS Honest Sticky Emit
CHECK_DEADLOCK FALSE
