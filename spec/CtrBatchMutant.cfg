SPECIFICATION Spec
CONSTANTS H = 5
 B = 8
 Batches = 5
 CarryOut = "within"
INVARIANTS Consecutive NoReuse Emit
CHECK_DEADLOCK FALSE
