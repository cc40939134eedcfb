SPECIFICATION Spec
CONSTANTS B = 4
 Lens = {0, 1, 3, 4, 5, 8, 9}
 MaxOps = 5
 Seeds = {"s", "t"}
INVARIANTS NoReuse Distinct Function
CHECK_DEADLOCK FALSE
