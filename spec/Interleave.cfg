SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Bug = "none"
INVARIANTS Halves Leaves
CHECK_DEADLOCK FALSE
