SPECIFICATION Spec
CONSTANTS Q = 8
 First = 5
 Mutant = "zero"
INVARIANTS Sound Complete Ordered
