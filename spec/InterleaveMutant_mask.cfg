SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Bug = "mask"
INVARIANTS Halves Leaves
CHECK_DEADLOCK FALSE
