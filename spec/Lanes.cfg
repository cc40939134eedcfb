SPECIFICATION Spec
INVARIANTS Independent Local Emit
CHECK_DEADLOCK FALSE
