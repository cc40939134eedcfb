SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Shared = FALSE
INVARIANTS Independent
VIEW View
CHECK_DEADLOCK FALSE
