SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Funcs = 2
 Mutant = "carried"
INVARIANTS SameProgram Aligned
