SPECIFICATION Spec
INVARIANTS Canonical Emit
CHECK_DEADLOCK FALSE
