SPECIFICATION Spec
CONSTANTS Q = 8
 First = 5
 Mutant = "all"
INVARIANTS Sound Complete Ordered
