SPECIFICATION Spec
CONSTANTS Rate = 8
 LenField = 3
 MaxLen = 27
 Domains = {"a", "b"}
INVARIANTS Standard Injective Emit
CHECK_DEADLOCK FALSE
