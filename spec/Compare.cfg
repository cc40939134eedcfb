SPECIFICATION Spec
CONSTANTS Places = 3
 Gather = "or"
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE
