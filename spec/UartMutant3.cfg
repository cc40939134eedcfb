SPECIFICATION Spec
CONSTANTS
  Cap = 5
  Labels = {0, 1, 4}
  Trailer = 2
  MaxReports = 3
  Waits = "empty"
INVARIANTS Complete 
CHECK_DEADLOCK FALSE
