SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Shared = TRUE
INVARIANTS Independent
VIEW View
CHECK_DEADLOCK FALSE
