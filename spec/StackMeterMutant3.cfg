SPECIFICATION Spec
CONSTANTS
  N = 8
  Sp = 7
  Deepest = 4
  Mark = 7
  Size = 5
  Refills = FALSE
  Ops = 1
INVARIANTS Exact Intact
CHECK_DEADLOCK FALSE
