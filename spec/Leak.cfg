SPECIFICATION Spec
CONSTANTS MaxLen = 1000
 Broken = FALSE
INVARIANTS Silent
VIEW View
CHECK_DEADLOCK FALSE
