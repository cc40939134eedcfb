SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Bug = "noswap"
INVARIANTS Halves Leaves
CHECK_DEADLOCK FALSE
