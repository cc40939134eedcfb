SPECIFICATION Spec
CONSTANTS
  Period = 5
  Late = 2
  MaxTicks = 14
  Rounds = 2
  HandlerClears = FALSE
  ChecksPending = TRUE
  ClearsPending = FALSE
  PerOverflow = 5
INVARIANTS Exact 
CHECK_DEADLOCK FALSE
