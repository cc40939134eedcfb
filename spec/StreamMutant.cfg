SPECIFICATION Spec
CONSTANTS
  Rate = 168
  Cap = 270
  Group = 13
  Groups = 32
  Polys = 9
  Seeds = {"s", "t"}
  MaxCalls = 12
  KeepLeftovers = FALSE
INVARIANTS Sliced Fits
CHECK_DEADLOCK FALSE
