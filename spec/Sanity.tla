----------------------------- MODULE Sanity -----------------------------
(* The sanity check of the attack estimates: for each lattice, reduce its *)
(* basis with growing block sizes until the secret is its shortest        *)
(* vector, and report for every block size whether it has been found and  *)
(* the time spent so far. Which basis of the lattice a reduction gives,   *)
(* where its shortest vector stands and with which sign, and how long it  *)
(* takes, is the environment's choice.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rows,     \* of a basis
          Steps,    \* block sizes
          Bug
VARIABLES k,        \* block sizes handled
          basis,    \* the script's current basis
          found,    \* the script's verdict
          time,     \* and its sum of durations
          report,   \* << success, time >> by block size
          truth,    \* has a reduction shown the secret as shortest vector?
          spent,    \* time of all reductions
          runs,     \* reductions run
          hist
vars == << k, basis, found, time, report, truth, spent, runs, hist >>
Perms == {f \in [1 .. Rows -> 1 .. Rows] : \A i, j \in 1 .. Rows : f[i] = f[j] => i = j}
\* a basis: lengths of its rows, and which row (0: none) is the secret, up to a sign
Bases == [norm : Perms, row : 0 .. Rows, sign : {1, -1}]
Row(b, i) == IF b.row = i THEN b.sign ELSE 0
Shortest(b) == CHOOSE i \in 1 .. Rows : b.norm[i] = 1
\* the script's search for it
RECURSIVE Scan(_, _, _)
Scan(b, best, i) == IF i > Rows THEN best ELSE Scan(b, IF b.norm[i] < b.norm[best] THEN i ELSE best, i + 1)
Recognised(b) == LET v == Row(b, IF Bug = "first" THEN 1 ELSE Scan(b, 1, 2)) IN IF Bug = "sign" THEN v = 1 ELSE v # 0

None == [norm |-> [i \in 1 .. Rows |-> i], row |-> 0, sign |-> 1]
Init == /\ k = 0 /\ basis = None /\ found = FALSE /\ time = 0 /\ report = << >>
        /\ truth = FALSE /\ spent = 0 /\ runs = 0 /\ hist = << >>
Reduce == /\ k < Steps /\ (~found \/ Bug = "again")
          /\ \E b \in Bases, d \in {1, 3} :
               /\ basis' = b
               /\ found' = (Recognised(b) \/ (found /\ Bug # "again"))
               /\ time' = IF Bug = "clock" /\ Recognised(b) THEN time ELSE time + d
               /\ truth' = (truth \/ b.row = Shortest(b)) /\ spent' = spent + d
               /\ hist' = Append(hist, << IF b.row = Shortest(b) THEN "found" ELSE "hidden", Shortest(b) - 1, IF b.sign = 1 THEN 0 ELSE 1, d >>)
          /\ k' = k + 1 /\ runs' = runs + 1
          /\ report' = Append(report, << found', time' >>)
Keep == /\ k < Steps /\ found /\ Bug # "again"
        /\ k' = k + 1
        /\ report' = Append(report, << Bug # "forget", time >>)
        /\ UNCHANGED << basis, found, time, truth, spent, runs, hist >>
Next == Reduce \/ Keep
Spec == Init /\ [][Next]_vars
\* what is reported is what the reductions have shown, and the time they took
Honest == k > 0 => report[k] = << truth, spent >>
\* nothing is taken back, nothing is done that is not needed
Sticky == \A i \in 1 .. Len(report) - 1 : report[i][1] => report[i + 1] = report[i]
View == << k, basis.norm[1], Recognised(basis), found, time, report, truth, spent >>
Emit == k = Steps => PrintT("BEHAVIOUR " \o ToJson(hist))
========================================================================
