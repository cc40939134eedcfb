SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Broken = FALSE
INVARIANTS Silent Emit
CHECK_DEADLOCK FALSE
