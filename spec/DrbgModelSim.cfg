SPECIFICATION Spec
CONSTANTS B = 4
 Lens = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 31, 32, 33}
 MaxOps = 12
 Seeds = {"s", "t", "u"}
INVARIANTS NoReuse Function Emit
CHECK_DEADLOCK FALSE
