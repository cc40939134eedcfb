SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 4, 5}
  MaxReqs = 3
  Polls = TRUE
  Warm = 4
  Split = 2
INVARIANTS Obeyed Prepared Delivered Emit
CHECK_DEADLOCK FALSE
