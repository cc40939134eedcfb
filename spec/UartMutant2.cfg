SPECIFICATION Spec
CONSTANTS
  Cap = 5
  Labels = {0, 1, 3}
  Trailer = 2
  MaxReports = 3
  Waits = "no"
INVARIANTS Complete 
CHECK_DEADLOCK FALSE
