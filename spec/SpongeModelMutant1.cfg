SPECIFICATION Spec
CONSTANTS Rate = 8
 LenField = 3
 MaxLen = 27
 Domains = {"a", "b"}
 Last2 <- BadLast2
INVARIANTS Standard
CHECK_DEADLOCK FALSE
