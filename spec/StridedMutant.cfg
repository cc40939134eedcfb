SPECIFICATION SSpec
CONSTANTS V = {4096, 65535}
 Inv3 = 43691
 Inv9 = 36409
 Inv15 = 61166
 Algorithm = "toom"
INVARIANT Exact
CHECK_DEADLOCK FALSE
