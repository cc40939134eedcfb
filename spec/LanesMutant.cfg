SPECIFICATION Spec
CONSTANT StageSelect <- BadSelect
INVARIANTS Independent Local
CHECK_DEADLOCK FALSE
