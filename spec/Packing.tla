---------------------------- MODULE Packing -----------------------------
(* Serialization at every width on the smallest group of coefficients     *)
(* that ends on a byte boundary, times two: packing and unpacking are     *)
(* inverse bijections; both are linear over bits, so unit strings decide; *)
(* structured strings are added.                                          *)
EXTENDS Ring, Json
Widths == {1, 3, 4, 6, 10, 11, 12, 13, 14}
G == 8
VARIABLES w, kind, i, j
vars == << w, kind, i, j >>
Bits(s) == TLCEval([k \in 0 .. w * G - 1 |-> IF k \in s THEN 1 ELSE 0])
\* the set of one bits of the string under test
Ones == CASE kind = "unit" -> {i}
          [] kind = "pair" -> {i, j}
          [] kind = "hole" -> 0 .. (w * G - 1) \ {i}
Init == /\ w \in Widths /\ kind \in {"unit", "pair", "hole"} /\ i \in 0 .. w * G - 1
        /\ j \in (IF kind = "pair" THEN i + 1 .. (IF i + 10 < w * G THEN i + 10 ELSE w * G - 1) ELSE {0})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
AsBytes == LET b == Bits(Ones) IN TLCEval([n \in 1 .. (w * G) \div 8 |-> SumTo([k \in 1 .. 8 |-> b[8 * (n - 1) + k - 1] * Pow2[k - 1]], 8)])
AsCoefs == LET b == Bits(Ones) IN TLCEval([c \in 1 .. G |-> SumTo([k \in 1 .. w |-> b[w * (c - 1) + k - 1] * Pow2[k - 1]], w)])
Canonical == Pack(w, AsCoefs) = AsBytes /\ Unpack(w, AsBytes) = AsCoefs
Emit == PrintT("BEHAVIOUR " \o ToJson(<< w, kind, i, j >>))
=========================================================================
