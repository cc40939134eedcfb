SPECIFICATION Spec
CONSTANTS B = 4
 Budgets = {1, 6, 11}
 MaxLen = 11
 MaxOps = 5
INVARIANTS Stream Budget Fresh
VIEW View
CHECK_DEADLOCK FALSE
