SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Bug = "half"
INVARIANTS Halves Leaves
CHECK_DEADLOCK FALSE
