SPECIFICATION Spec
CONSTANTS MaxLen = 1000
 Broken = TRUE
INVARIANTS Silent
VIEW View
CHECK_DEADLOCK FALSE
