SPECIFICATION Spec
CONSTANTS
  N = 8
  Sp = 7
  Deepest = 4
  Mark = 7
  Size = 5
  Refills = TRUE
  Ops = 2
INVARIANTS Exact Intact
CHECK_DEADLOCK FALSE
