---------------------------- MODULE Sampler -----------------------------
(* Secret sampling over every value a coefficient's noise bits can take:  *)
(* range, the difference-of-popcounts law by the code's word arithmetic,  *)
(* and the exact distribution (binomial or uniform).                      *)
EXTENDS Saber
Names == {"LightSaber", "Saber", "FireSaber", "uSaber"}
VARIABLES name, v, val
vars == << name, v, val >>
Init == /\ name \in Names /\ v \in 0 .. 1023 /\ v < Pow2[ParamTable[name].mu]
        /\ val = Sample(ParamTable[name], v)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Half == ParamTable[name].mu \div 2
Range == IF ParamTable[name].noise = "uniform" THEN val \in -2 .. 1 ELSE val \in -Half .. Half
\* the masks-and-shifts way: every bit position is added to its group
MaskWay == LET h == Half
               bit(i) == (v \div Pow2[i]) % 2
           IN ParamTable[name].noise = "cbd" =>
              val = SumTo([i \in 1 .. h |-> bit(i - 1)], h) - SumTo([i \in 1 .. h |-> bit(h + i - 1)], h)
TwosComplement == ParamTable[name].noise = "uniform" => (val + 4) % 4 = v
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF k > n THEN 0 ELSE (Choose(n - 1, k - 1) + Choose(n - 1, k))
\* number of noise values giving each coefficient: binomial(mu, mu/2 + x) or one
Law == \A p \in {ParamTable[x] : x \in Names} :
    \A x \in (IF p.noise = "uniform" THEN -2 .. 1 ELSE -(p.mu \div 2) .. (p.mu \div 2)) :
        Cardinality({w \in 0 .. Pow2[p.mu] - 1 : Sample(p, w) = x})
          = IF p.noise = "uniform" THEN 1 ELSE Choose(p.mu, (p.mu \div 2) + x)
ASSUME Law
=========================================================================
