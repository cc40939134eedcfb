--------------------------- MODULE Interleave ---------------------------
(* The Cortex-M0 libraries keep a 64-bit lane as two words: its even bits *)
(* and its odd bits. Lanes enter and leave through masks and shifts, are  *)
(* rotated by rotating halves, and a bit is complemented in place. The    *)
(* two words stand for the lane after every history.                      *)
(* Masks and shifts act on bits one by one, so lanes of few bits suffice. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxSteps, Bug
VARIABLES lane,    \* the lane: the set of its bits that are 1
          w,       \* the two words
          n
Words == 0 .. 31
Sll(x, k) == {b + k : b \in x} \cap Words
Srl(x, k) == {b - k : b \in x} \cap Words
Ror(x, k) == {(b + 32 - k) % 32 : b \in x}
Xor(x, y) == (x \ y) \cup (y \ x)
\* runs of k ones, k zeros ..., starting at bit s
Mask(k, s) == {b \in Words : ((b + 2 * k - s) % (2 * k)) < k}
\* the even (odd) bits of a word in its low (high) half
Evens(x) == LET a == x \cap Mask(1, 0)
                b == (a \cup Srl(a, 1)) \cap Mask(2, 0)
                c == (b \cup Srl(b, 2)) \cap (IF Bug = "mask" THEN Mask(4, 2) ELSE Mask(4, 0))
                d == (c \cup Srl(c, 4)) \cap Mask(8, 0)
            IN (d \cup Srl(d, 8)) \cap 0 .. 15
Odds(x) == LET a == x \cap Mask(1, 1)
               b == (a \cup Sll(a, 1)) \cap Mask(2, 2)
               c == (b \cup Sll(b, 2)) \cap Mask(4, 4)
               d == (c \cup Sll(c, 4)) \cap Mask(8, 8)
           IN (d \cup Sll(d, 8)) \cap 16 .. 31
Lo(l) == l \cap Words
Hi(l) == {b - 32 : b \in l \ Words}
In(l) == << Evens(Lo(l)) \cup Sll(Evens(Hi(l)), 16), Srl(Odds(Lo(l)), 16) \cup Odds(Hi(l)) >>
Swap(x, mask, k) == LET t == Xor(x, Srl(x, k)) \cap mask IN Xor(Xor(x, t), Sll(t, k))
Spread(x) == IF Bug = "order" THEN Swap(Swap(Swap(Swap(x, Mask(1, 1) \cap Mask(2, 0), 1), Mask(2, 2) \cap Mask(4, 0), 2), Mask(4, 4) \cap Mask(8, 0), 4), 8 .. 15, 8)
             ELSE Swap(Swap(Swap(Swap(x, 8 .. 15, 8), Mask(4, 4) \cap Mask(8, 0), 4), Mask(2, 2) \cap Mask(4, 0), 2), Mask(1, 1) \cap Mask(2, 0), 1)
Out(v) == Spread((v[1] \cap 0 .. 15) \cup Sll(v[2], 16)) \cup {b + 32 : b \in Spread((v[2] \cap 16 .. 31) \cup Srl(v[1], 16))}
\* the lane rotated left by r
Rol(v, r) == LET m == r \div 2
                 up == IF Bug = "half" THEN m ELSE m + 1
             IN IF r % 2 = 0 \/ Bug = "noswap" THEN << Ror(v[1], (32 - m) % 32), Ror(v[2], (32 - m) % 32) >>
                ELSE << Ror(v[2], (32 - up) % 32), Ror(v[1], (32 - m) % 32) >>
Flip(v, p) == LET i == (p % 2) + 1
                  b == (IF Bug = "flip" THEN p ELSE p % 64) \div 2
              IN [v EXCEPT ![i] = Xor(@, {b})]

Init == /\ lane \in {{}, 0 .. 63} /\ w = In(lane) /\ n = 0
Add(d) == lane' = Xor(lane, d) /\ w' = TLCEval(<< Xor(w[1], In(d)[1]), Xor(w[2], In(d)[2]) >>)
Rotate(r) == lane' = {(b + r) % 64 : b \in lane} /\ w' = TLCEval(Rol(w, r))
\* positions count on over the lanes: here, of the first two
Complement(p) == lane' = Xor(lane, {p % 64}) /\ w' = TLCEval(Flip(w, p))
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E b \in 0 .. 63 : Add({b})
           \/ \E b \in 0 .. 7, s \in 0 .. 7 : b < s /\ Add(8 * b .. 8 * s + 7)      \* a run of bytes
           \/ \E r \in 0 .. 63 : Rotate(r)
           \/ \E p \in 0 .. 127 : Complement(p)
Spec == Init /\ [][Next]_<< lane, w, n >>
Halves == w = << {b \in Words : 2 * b \in lane}, {b \in Words : 2 * b + 1 \in lane} >>
Leaves == Out(w) = lane
========================================================================
