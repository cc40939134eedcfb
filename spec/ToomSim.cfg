SPECIFICATION Spec
CONSTANTS V = {0, 1, 2, 3, 4096, 8191, 8192, 21845, 32767, 32768, 40000, 65534, 65535}
 Inv3 = 43691
 Inv9 = 36409
 Inv15 = 61167
 Algorithm = "toom"
INVARIANT Emit
CHECK_DEADLOCK FALSE
