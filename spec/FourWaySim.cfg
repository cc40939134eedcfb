SPECIFICATION Spec
CONSTANTS
  K = 4
  Lanes = 25
  W = 8
  Dists = {0, 1, 5, 17, 20, 21, 24, 25, 26}
  MaxCalls = 14
  Bug = "none"
INVARIANTS Independent Answers Within Emit
CHECK_DEADLOCK FALSE
