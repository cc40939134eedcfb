SPECIFICATION Spec
CONSTANTS
  Period = 5
  Late = 2
  MaxTicks = 14
  Rounds = 1
  HandlerClears = FALSE
  ChecksPending = FALSE
  ClearsPending = TRUE
  PerOverflow = 5
INVARIANTS Exact 
CHECK_DEADLOCK FALSE
