SPECIFICATION Spec
CONSTANTS Places = 3
 Gather = "sum"
INVARIANTS Exact
CHECK_DEADLOCK FALSE
