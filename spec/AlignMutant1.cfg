SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Funcs = 2
 Mutant = "dropped"
INVARIANTS SameProgram Aligned
