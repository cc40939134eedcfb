SPECIFICATION Spec
CONSTANTS Q = 8
 First = 5
 Mutant = "giveup"
INVARIANTS Sound Complete Ordered
