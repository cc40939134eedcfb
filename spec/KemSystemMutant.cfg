SPECIFICATION Spec
CONSTANTS
  Inst = {"A", "B"}
  Seeds = {"s1", "s2"}
  MaxOps = 6
  MaxKeys = 2
  MaxCts = 3
  DecT <- BadDecT
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
