SPECIFICATION Spec
CONSTANTS Ks = {1, 2}
 MaxIter = 5
 MaxOps = 2
 Mods = {32, 42}
 Concrete = TRUE
INVARIANTS Machine Normal Tails
VIEW View
CHECK_DEADLOCK FALSE
