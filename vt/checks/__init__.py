from . import kem, memory, prims, scripts, threads, leak, cortex, mulgen, board, fourway, sanity
TABLE = {}
for m in (kem, memory, prims, scripts, threads, leak, cortex, mulgen, board, fourway, sanity):
    TABLE.update(m.TABLE)
