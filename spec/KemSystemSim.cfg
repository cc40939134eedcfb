SPECIFICATION Spec
CONSTANTS
  Inst = {"A", "B"}
  Seeds = {"s1", "s2"}
  MaxOps = 24
  MaxKeys = 3
  MaxCts = 9
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
