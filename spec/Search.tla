----------------------------- MODULE Search -----------------------------
(* The parameter search as a machine: an outer loop over the rounding      *)
(* moduli p as long as they are secure, an inner loop over the             *)
(* reconciliation moduli T that stops at the first one with a small enough *)
(* failure probability. What the estimator and the failure computation say *)
(* is chosen at the start: security and failure probability both decrease, *)
(* the latter possibly to exactly zero.                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Q,        \* log2 q
          First,    \* log2 of the first p
          Mutant
Ps == First .. Q - 1
Ts(p) == 1 .. 2 * p - Q          \* T with p / T >= q / p
VARIABLES safe,     \* p is secure iff p < safe
          good,     \* good[p]: T is good enough iff T >= good[p]
          zero,     \* zero[p]: the failure probability vanishes iff T >= zero[p]
          p, t, out, pc
vars == << safe, good, zero, p, t, out, pc >>
Top(x) == 2 * x - Q + 1          \* beyond all T
Init == /\ safe \in First .. Q
        /\ good \in [Ps -> 1 .. Q] /\ \A x \in Ps : good[x] <= Top(x)
        /\ zero \in [Ps -> 1 .. Q] /\ \A x \in Ps : zero[x] <= Top(x) /\ good[x] <= zero[x]
        /\ p = First /\ t = 0 /\ out = << >> /\ pc = "p"
Oracles == << safe, good, zero >>
NextP == pc = "p" /\ UNCHANGED << Oracles, out, p >> /\
         IF p > Q - 1 \/ p >= safe THEN pc' = "done" /\ UNCHANGED t ELSE pc' = "t" /\ t' = 1
\* is the failure probability too large?
TooLarge == IF Mutant = "zero" /\ t >= zero[p] THEN TRUE ELSE t < good[p]
TryT == pc = "t" /\ UNCHANGED Oracles /\
        IF t > (IF Mutant = "short" THEN 2 * p - Q - 1 ELSE 2 * p - Q) THEN pc' = "p" /\ p' = p + 1 /\ UNCHANGED << t, out >>
        ELSE IF TooLarge
             THEN IF Mutant = "giveup" THEN pc' = "p" /\ p' = p + 1 /\ UNCHANGED << t, out >>
                  ELSE t' = t + 1 /\ UNCHANGED << p, out, pc >>
        ELSE /\ out' = Append(out, << p, t >>)
             /\ IF Mutant = "all" THEN t' = t + 1 /\ UNCHANGED << p, pc >> ELSE pc' = "p" /\ p' = p + 1 /\ UNCHANGED t
Next == NextP \/ TryT \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(NextP \/ TryT)
(* what the search has to deliver *)
Good(x, T) == T >= good[x]
Proposed == {out[i] : i \in 1 .. Len(out)}
Sound == \A r \in Proposed : r[1] < safe /\ r[2] \in Ts(r[1]) /\ Good(r[1], r[2]) /\ \A T \in 1 .. r[2] - 1 : ~Good(r[1], T)
Complete == pc = "done" => \A x \in Ps : (x < safe /\ \E T \in Ts(x) : Good(x, T)) => \E r \in Proposed : r[1] = x
Ordered == \A i, j \in 1 .. Len(out) : i < j => out[i][1] < out[j][1]
Terminates == <>(pc = "done")
Emit == IF pc = "done" THEN PrintT("BEHAVIOUR " \o ToJson([safe |-> safe, good |-> [x \in 1 .. Q - First |-> good[x + First - 1]],
                                                           zero |-> [x \in 1 .. Q - First |-> zero[x + First - 1]]])) ELSE TRUE
=========================================================================
