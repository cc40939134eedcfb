SPECIFICATION Spec
CONSTANTS Gaps = {0, 1}
 Offsets = {0, 1}
 Enc <- BadEnc
INVARIANTS Disjoint Frame
CHECK_DEADLOCK FALSE
