SPECIFICATION Spec
CONSTANTS Q = 8
 First = 5
 Mutant = "none"
INVARIANTS Sound Complete Ordered
PROPERTY Terminates
