------------------------ MODULE DrbgModelMutant -------------------------
(* A planted error: an empty request does not replace the state.          *)
EXTENDS DrbgModel
BadDraw(n) == LET k == (n + B - 1) \div B
                  new == Blocks(off, k + 3)
              IN /\ key # << >>
                 /\ out' = out \o [i \in 1 .. n |-> << key, off + ((i - 1) \div B) + 1, (i - 1) % B >>]
                 /\ dup' = (dup \/ new \cap usedBlocks # {} \/ Cardinality(new) # k + 3)
                 /\ usedBlocks' = usedBlocks \cup new
                 /\ key' = IF n = 0 THEN key ELSE Append(key, k)
                 /\ off' = 0 /\ since' = Append(since, n)
                 /\ hist' = Append(hist, [op |-> "draw", n |-> n])
=========================================================================
