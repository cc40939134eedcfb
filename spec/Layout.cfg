SPECIFICATION Spec
CONSTANTS Gaps = {0, 1}
 Offsets = {0, 1, 2, 3}
INVARIANTS Disjoint Frame Emit
CHECK_DEADLOCK FALSE
