--------------------------- MODULE CtrBatch ----------------------------
(* Counter mode in batches: the counter is two half words (2^H values     *)
(* each), a batch handles B blocks with per-block carries and one carry   *)
(* for the counter left behind (the AES-NI code: H = 64, B = 8). From     *)
(* every start, the blocks encrypted must be consecutive and none may     *)
(* repeat. CarryOut says when the counter left behind takes the carry.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS H, B, Batches, CarryOut
VARIABLES start, hi, lo, used, n
vars == << start, hi, lo, used, n >>
M == 2 ^ H
Init == /\ hi \in 0 .. M - 1 /\ lo \in 0 .. M - 1
        /\ start = hi * M + lo /\ used = << >> /\ n = 0
\* block k of the batch
Block(k) == (((IF lo + k >= M THEN hi + 1 ELSE hi) % M) * M) + ((lo + k) % M)
Batch == /\ n < Batches /\ n' = n + 1
         /\ used' = used \o [k \in 1 .. B |-> Block(k - 1)]
         /\ hi' = (IF (IF CarryOut = "afterwards" THEN lo + B >= M ELSE lo + B - 1 >= M) THEN hi + 1 ELSE hi) % M
         /\ lo' = (lo + B) % M
         /\ UNCHANGED start
Next == Batch
Spec == Init /\ [][Next]_vars
Consecutive == \A k \in 1 .. Len(used) : used[k] = (start + k - 1) % (M * M)
NoReuse == \A j, k \in 1 .. Len(used) : (j < k /\ k - j < M * M) => used[j] # used[k]
\* start classes for the real code: distance of the low half from its wrap, whether the high half wraps too
Emit == n = 0 /\ (hi \in {0, 1, M - 1}) => PrintT("BEHAVIOUR " \o ToJson(<< hi, M - lo >>))
========================================================================
