SPECIFICATION Spec
CONSTANTS Q = 8
 First = 5
 Mutant = "short"
INVARIANTS Sound Complete Ordered
