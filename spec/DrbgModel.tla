--------------------------- MODULE DrbgModel ---------------------------
(* The generator with symbolic keys: a key is the history that produced   *)
(* it, a block is << key, offset >>. Checked over every history: no block *)
(* is ever used twice (neither given out twice nor given out and used to  *)
(* make a key), the state is replaced after every request, and the        *)
(* outputs after an initialisation depend on its seed and the requests    *)
(* since only. Histories are emitted for replay.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS B, Lens, MaxOps, Seeds
VARIABLES key, off, since, out, usedBlocks, dup, hist
vars == << key, off, since, out, usedBlocks, dup, hist >>

\* one update: three blocks after the current offset give the new key and counter
Init == key = << >> /\ off = 0 /\ since = << >> /\ out = << >> /\ usedBlocks = {} /\ dup = FALSE /\ hist = << >>
Blocks(from, n) == {<< key, from + i >> : i \in 1 .. n}
Seed(s) == /\ key' = << s >> /\ off' = 0 /\ since' = << >> /\ out' = << >>
           /\ usedBlocks' = {} /\ dup' = FALSE
           /\ hist' = Append(hist, [op |-> "init", s |-> s])
Draw(n) == LET k == (n + B - 1) \div B
               new == Blocks(off, k + 3)
           IN /\ key # << >>
              /\ out' = out \o [i \in 1 .. n |-> << key, off + ((i - 1) \div B) + 1, (i - 1) % B >>]
              /\ dup' = (dup \/ new \cap usedBlocks # {} \/ Cardinality(new) # k + 3)
              /\ usedBlocks' = usedBlocks \cup new
              /\ key' = Append(key, k)       \* a fresh key and counter, determined by the block count
              /\ off' = 0
              /\ since' = Append(since, n)
              /\ hist' = Append(hist, [op |-> "draw", n |-> n])
Next == Len(hist) < MaxOps /\ ((\E s \in Seeds : Seed(s)) \/ (\E n \in Lens : Draw(n)))
Spec == Init /\ [][Next]_vars
NoReuse == ~ dup
Distinct == \A i, j \in 1 .. Len(out) : i < j => out[i] # out[j]
\* the output is a function of seed and requests
RECURSIVE Gen(_, _)
Gen(k, rs) == IF rs = << >> THEN << >>
              ELSE [i \in 1 .. rs[1] |-> << k, ((i - 1) \div B) + 1, (i - 1) % B >>] \o Gen(Append(k, (rs[1] + B - 1) \div B), Tail(rs))
Function == key # << >> => out = Gen(<< key[1] >>, since)
Emit == Len(hist) = MaxOps => PrintT("BEHAVIOUR " \o ToJson(hist))
========================================================================
