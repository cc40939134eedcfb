SPECIFICATION Spec
CONSTANTS B = 4
 Budgets = {1, 6, 11, 16, 40}
 MaxLen = 17
 MaxOps = 14
INVARIANTS Stream Budget Fresh Emit
CHECK_DEADLOCK FALSE
