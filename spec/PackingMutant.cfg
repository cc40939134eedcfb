SPECIFICATION Spec
INVARIANTS BadCanonical
CHECK_DEADLOCK FALSE
