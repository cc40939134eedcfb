---------------------------- MODULE StackMeter --------------------------
(* The memory benchmark of the Cortex-M0 board: the stack below a mark is  *)
(* filled with a known value, operations run, and what is left of the fill *)
(* at its far end tells how deep they went. Cells 1 .. N; the stack grows  *)
(* down; cells Sp .. N are the frame of the measuring program. Operations  *)
(* of depth d write the cell Sp-d and any others above it, with any value, *)
(* also the fill's.                                                        *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Sp, Deepest,
          Mark,     \* the fill is the cells Mark-Size .. Mark-1
          Size,
          Refills,  \* before every measurement, or only before the first
          Ops       \* operations in a measurement
VARIABLES cell, pc, depth, ran, reported, round
vars == << cell, pc, depth, ran, reported, round >>
Filled == (Mark - Size) .. (Mark - 1)
Init == /\ cell = [i \in 1 .. N |-> IF i >= Sp THEN "frame" ELSE "old"]
        /\ pc = "fill" /\ depth = 0 /\ ran = 0 /\ reported = 0 /\ round = 0
Fill == /\ pc = "fill" /\ round < 2
        /\ cell' = (IF Refills \/ round = 0 THEN [i \in 1 .. N |-> IF i \in Filled THEN "fill" ELSE cell[i]] ELSE cell)
        /\ pc' = "run" /\ depth' = 0 /\ ran' = 0
        /\ UNCHANGED << reported, round >>
Run == /\ pc = "run" /\ ran < Ops
       /\ \E d \in 1 .. Deepest : \E w \in [(Sp - d) .. (Sp - 1) -> {"keep", "fill", "other"}] :
             /\ w[Sp - d] # "keep"
             /\ cell' = [i \in 1 .. N |-> IF i \in DOMAIN w THEN (IF w[i] = "keep" THEN cell[i] ELSE w[i]) ELSE cell[i]]
             /\ depth' = (IF d > depth THEN d ELSE depth)
       /\ ran' = ran + 1
       /\ UNCHANGED << pc, reported, round >>
Left == LET s == {k \in 0 .. Size : \A i \in (Mark - Size) .. (Mark - Size + k - 1) : cell[i] = "fill"}
        IN CHOOSE k \in s : \A j \in s : j <= k
Count == /\ pc = "run" /\ ran >= 1
         /\ reported' = Size - Left
         /\ pc' = "report"
         /\ UNCHANGED << cell, depth, ran, round >>
Report == /\ pc = "report" /\ pc' = "fill" /\ round' = round + 1
          /\ UNCHANGED << cell, depth, ran, reported >>
Next == Fill \/ Run \/ Count \/ Report
Spec == Init /\ [][Next]_vars
\* never more than what was used, and never less than the deepest cell that holds another value
Exact == pc = "report" => /\ reported <= depth
                          /\ \A d \in 1 .. Deepest : (d <= depth /\ cell[Sp - d] = "other") => reported >= d
\* the measuring program survives
Intact == \A i \in Sp .. N : cell[i] = "frame"
=========================================================================
