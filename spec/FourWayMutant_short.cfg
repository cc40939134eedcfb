SPECIFICATION Spec
CONSTANTS
  K = 3
  Lanes = 3
  W = 2
  Dists = {0, 2, 3, 4}
  MaxCalls = 2
  Bug = "short"
INVARIANTS Independent Answers Within
VIEW View
CHECK_DEADLOCK FALSE
