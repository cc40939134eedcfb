SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Shared = FALSE
INVARIANTS Independent Emit
CONSTRAINT Few
CHECK_DEADLOCK FALSE
