SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Funcs = 2
 Mutant = "uncounted"
INVARIANTS SameProgram Aligned
