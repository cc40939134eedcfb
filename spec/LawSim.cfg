SPECIFICATION SimSpec
CONSTANTS Ks = {1, 2, 3, 5}
 MaxIter = 9
 MaxOps = 9
 Mods = {32, 42, 63, 54}
 Concrete = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
