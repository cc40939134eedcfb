SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Bug = "flip"
INVARIANTS Halves Leaves
CHECK_DEADLOCK FALSE
