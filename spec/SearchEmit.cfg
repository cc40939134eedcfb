SPECIFICATION Spec
CONSTANTS Q = 12
 First = 10
 Mutant = "none"
INVARIANTS Sound Complete Ordered Emit
