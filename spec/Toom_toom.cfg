SPECIFICATION Spec
CONSTANTS V = {0, 1, 8191, 32768, 65535}
 Inv3 = 43691
 Inv9 = 36409
 Inv15 = 61167
 Algorithm = "toom"
INVARIANT Exact
CHECK_DEADLOCK FALSE
