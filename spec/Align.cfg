SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Funcs = 2
 Mutant = "none"
INVARIANTS SameProgram Aligned Frugal
