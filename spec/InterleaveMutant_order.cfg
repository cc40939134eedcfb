SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Bug = "order"
INVARIANTS Halves Leaves
CHECK_DEADLOCK FALSE
