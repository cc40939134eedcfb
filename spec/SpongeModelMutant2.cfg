SPECIFICATION Spec
CONSTANTS Rate = 8
 LenField = 3
 MaxLen = 27
 Domains = {"a", "b"}
 Last3 <- BadLast3
INVARIANTS Standard
CHECK_DEADLOCK FALSE
