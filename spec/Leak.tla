------------------------------ MODULE Leak ------------------------------
(* Two runs of one program that differ in a secret (self-composition), and *)
(* the monitor that watches real executions: definedness bits that spread  *)
(* through the data flow, and an alarm at every branch on, and every       *)
(* address made of, a secret-dependent value. Over all programs of a small *)
(* instruction set, of any length: while the monitor is silent both runs   *)
(* show the same sequence of branches and addresses. Programs are emitted  *)
(* to compare the monitor in use (valgrind memcheck) with this one.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Broken
Bit == {0, 1}
VARIABLES s,   \* a, b: the runs [r0, r1, m0, m1]; t: TRUE if possibly secret; alarm; same: traces agree so far
          hist
vars == << s, hist >>
Ops == {"x", "a", "m", "c", "z", "s", "l", "L", "S", "b", "B"}
Start(v) == [r0 |-> v, r1 |-> 1, m0 |-> 0, m1 |-> 1]
Begin == [a |-> Start(1), b |-> Start(0), t |-> [r0 |-> TRUE, r1 |-> FALSE, m0 |-> FALSE, m1 |-> FALSE],
          alarm |-> FALSE, same |-> TRUE]
Init == s = Begin /\ hist = << >>
Xor(x, y) == IF x = y THEN 0 ELSE 1
Cell(i) == IF i = 0 THEN "m0" ELSE "m1"
Do(o, v) ==
    CASE o = "x" -> [v EXCEPT !.r0 = Xor(v.r0, v.r1)]
      [] o = "a" -> [v EXCEPT !.r1 = v.r0 * v.r1]
      [] o = "m" -> [v EXCEPT !.r1 = v.r0]
      [] o = "c" -> [v EXCEPT !.r1 = 1]
      [] o = "z" -> [v EXCEPT !.r0 = 0]
      [] o = "s" -> [v EXCEPT !.m0 = v.r0]
      [] o = "l" -> [v EXCEPT !.r1 = v.m0]
      [] o = "L" -> [v EXCEPT !.r0 = v[Cell(v.r1)]]
      [] o = "S" -> [v EXCEPT ![Cell(v.r1)] = v.r0]
      [] OTHER -> v
Taint(o, t, a) ==
    CASE o = "x" -> [t EXCEPT !.r0 = t.r0 \/ t.r1]
      [] o = "a" -> [t EXCEPT !.r1 = (t.r0 /\ t.r1) \/ (t.r0 /\ a.r1 = 1) \/ (t.r1 /\ a.r0 = 1)]
      [] o = "m" -> [t EXCEPT !.r1 = t.r0]
      [] o = "c" -> [t EXCEPT !.r1 = FALSE]
      [] o = "z" -> [t EXCEPT !.r0 = FALSE]
      [] o = "s" -> [t EXCEPT !.m0 = t.r0]
      [] o = "l" -> [t EXCEPT !.r1 = t.m0]
      [] o = "L" -> [t EXCEPT !.r0 = t[Cell(a.r1)]]
      [] o = "S" -> [t EXCEPT ![Cell(a.r1)] = t.r0]
      [] OTHER -> t
\* what an observer sees of the step: addresses, branches
Shown(o, v) == CASE o \in {"L", "S"} -> << "addr", v.r1 >> [] o = "b" -> << "br", v.r0 >> [] o = "B" -> << "br", v.r1 >> [] OTHER -> << "-", 0 >>
Alarms(o, t) == CASE o \in {"L", "S"} -> t.r1 [] o = "b" -> t.r0 [] o = "B" -> t.r1 [] OTHER -> FALSE
Apply(x, o) ==
    [a |-> Do(o, x.a), b |-> Do(o, x.b),
     t |-> IF Broken /\ o = "l" THEN [x.t EXCEPT !.r1 = FALSE] ELSE Taint(o, x.t, x.a),
     alarm |-> x.alarm \/ Alarms(o, x.t),
     same |-> x.same /\ Shown(o, x.a) = Shown(o, x.b)]
Step(o) == s' = Apply(s, o) /\ hist' = Append(hist, o)
Next == Len(hist) < MaxLen /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars
\* no alarm: the traces agree, and only values marked secret differ
Silent == ~s.alarm => s.same /\ \A x \in DOMAIN s.a : s.a[x] # s.b[x] => s.t[x]
View == s      \* programs of any length
RECURSIVE Joined(_)
Joined(h) == IF h = << >> THEN "" ELSE Head(h) \o Joined(Tail(h))
Emit == Len(hist) = MaxLen => PrintT("BEHAVIOUR " \o ToJson([prog |-> Joined(hist), alarm |-> s.alarm]))
=========================================================================
