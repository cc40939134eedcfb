------------------------------ MODULE Align -----------------------------
(* Widening of narrow instructions so that wide ones lie on four-byte      *)
(* boundaries: one pass over the instructions of each function, which      *)
(* knows the width of the next one and whether the place reached so far is *)
(* aligned. Instructions: "n" narrow, "s" narrow and cannot be widened,    *)
(* "w" wide; every function starts aligned and ends in a narrow return.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Funcs, Mutant
Kinds == {"n", "s", "w"}
RECURSIVE Upto(_)
Upto(k) == IF k = 0 THEN {<< >>} ELSE Upto(k - 1) \cup {Append(s, x) : s \in Upto(k - 1), x \in Kinds}
VARIABLES prog, f, i, al, out, addr, last
vars == << prog, f, i, al, out, addr, last >>
\* out: << kind, width, address >>; addr: where the next instruction of the output goes; last: out of earlier functions
Init == /\ prog \in [1 .. Funcs -> Upto(MaxLen)]
        /\ f = 1 /\ i = 1 /\ al = TRUE /\ out = << >> /\ addr = 0 /\ last = << >>
Width(k) == IF k = "w" THEN 4 ELSE 2
Ins == prog[f][i]
Next2 == i = Len(prog[f]) \/ Width(prog[f][i + 1]) = 2      \* the return is narrow
\* bytes of the function as it came
RECURSIVE Bytes(_)
Bytes(s) == IF s = << >> THEN 2 ELSE Width(Head(s)) + Bytes(Tail(s))
Emit1(w) == out' = Append(out, << Ins, w, addr >>) /\ addr' = addr + w
Step == /\ f <= Funcs /\ i <= Len(prog[f])
        /\ i' = i + 1 /\ UNCHANGED << prog, f, last >>
        /\ CASE Ins = "w" -> Emit1(4) /\ al' = al
             [] Ins = "s" -> Emit1(2) /\ al' = (IF Mutant = "uncounted" THEN al ELSE ~al)
             [] Ins = "n" /\ Next2 ->
                  IF Mutant = "dropped" /\ i = Len(prog[f]) /\ Bytes(prog[f]) % 4 = 0 THEN UNCHANGED << out, addr, al >>
                  ELSE Emit1(2) /\ al' = ~al
             [] OTHER -> IF al THEN Emit1(4) /\ al' = TRUE ELSE Emit1(2) /\ al' = TRUE
Return == /\ f <= Funcs /\ i = Len(prog[f]) + 1
          /\ f' = f + 1 /\ i' = 1 /\ last' = Append(last, out) /\ out' = << >> /\ addr' = 0
          /\ al' = (IF Mutant = "carried" THEN al ELSE TRUE) /\ UNCHANGED prog
Next == Step \/ Return \/ (f > Funcs /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Done == f > Funcs
SameProgram == \A g \in 1 .. Len(last) : [j \in 1 .. Len(last[g]) |-> last[g][j][1]] = prog[g]
\* after an instruction that can be widened, a wide one is aligned
Aligned == \A g \in 1 .. Len(last) : \A j \in 2 .. Len(last[g]) :
              (last[g][j][1] = "w" /\ last[g][j - 1][1] = "n") => last[g][j][3] % 4 = 0
\* narrow instructions grow only where that puts a wide one right behind them on its boundary
Frugal == \A g \in 1 .. Len(last) : \A j \in 1 .. Len(last[g]) :
              (last[g][j][1] = "n" /\ last[g][j][2] = 4) => (j < Len(last[g]) /\ last[g][j + 1][1] = "w" /\ last[g][j + 1][3] % 4 = 0)
Emit == Done => PrintT("BEHAVIOUR " \o ToJson(prog))
=========================================================================
