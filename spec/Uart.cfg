SPECIFICATION Spec
CONSTANTS
  Cap = 5
  Labels = {0, 1, 3}
  Trailer = 2
  MaxReports = 3
  Waits = "empty"
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
