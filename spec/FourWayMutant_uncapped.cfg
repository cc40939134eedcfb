SPECIFICATION Spec
CONSTANTS
  K = 2
  Lanes = 3
  W = 3
  Dists = {0, 2, 3, 4}
  MaxCalls = 2
  Bug = "uncapped"
INVARIANTS Independent Answers Within
VIEW View
CHECK_DEADLOCK FALSE
