---------------------------- MODULE Compare -----------------------------
(* The in-place comparison of the Cortex-M code: the bytes of the         *)
(* re-encryption are compared one by one, the differences are gathered in *)
(* one register, and the sign bit of its negation is the verdict. The     *)
(* verdict must be 1 exactly if some byte differs, whatever the others    *)
(* are. Small bytes of three bits, a register of eight.                   *)
EXTENDS Bytes, Json
CONSTANTS Places, Gather
VARIABLES diffs, fail
vars == << diffs, fail >>
D == 0 .. 7
OrB(x, y) == LET bit(v, k) == (v \div Pow2[k]) % 2
                 o(k) == IF bit(x, k) + bit(y, k) > 0 THEN Pow2[k] ELSE 0
             IN o(0) + o(1) + o(2)
Step(f, d) == CASE Gather = "or" -> OrB(f, d)
                [] Gather = "sum" -> (f + d) % 8       \* a planted error: differences can cancel
                [] Gather = "last" -> d                \* a planted error: an assignment
Verdict(f) == ((256 - f) % 256) \div 128
Init == diffs = << >> /\ fail = 0
Next == /\ Len(diffs) < Places
        /\ \E d \in D : diffs' = Append(diffs, d) /\ fail' = Step(fail, d)
Spec == Init /\ [][Next]_vars
Exact == (Verdict(fail) = 1) <=> (\E k \in 1 .. Len(diffs) : diffs[k] # 0)
Emit == Len(diffs) = Places => PrintT("BEHAVIOUR " \o ToJson(diffs))
========================================================================
