SPECIFICATION Spec
INVARIANTS Range MaskWay TwosComplement
CHECK_DEADLOCK FALSE
