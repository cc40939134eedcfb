----------------------------- MODULE Threads ----------------------------
(* Decapsulations in several threads. A call works through its stages on   *)
(* scratch storage; static storage holds constants, which every call may   *)
(* write again (with the same value). Shared = TRUE moves the scratch into  *)
(* static storage: then some schedule gives a thread another key than the  *)
(* call gives alone, which the mutant configuration must find. Schedules   *)
(* of two threads with at most two preemptions are emitted.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Shared
Jobs == {<< 1, "honest" >>, << 1, "tampered" >>, << 2, "honest" >>}
VARIABLES job, pc, priv, stat, out, hist
vars == << job, pc, priv, stat, out, hist >>
Stages == << "const", "decrypt", "encrypt", "compare", "select" >>
Honest(j) == j[2] = "honest"
Msg(j) == << "m", j[1], Honest(j) >>
Again(m) == << "ct", m[2], m[3] >>
Bad(j, c) == c # << "ct", j[1], TRUE >>
Key(j, bad) == IF bad THEN << "Z", j >> ELSE << "K", j[1] >>
Alone(j) == Key(j, Bad(j, Again(Msg(j))))
Blank == [msg |-> << "m", 0, FALSE >>, ct |-> << "ct", 0, FALSE >>, bad |-> FALSE]

Init == /\ job \in [Threads -> Jobs] /\ pc = [t \in Threads |-> 1]
        /\ priv = [t \in Threads |-> Blank] /\ stat = [const |-> 0, scratch |-> Blank]
        /\ out = [t \in Threads |-> << >>] /\ hist = << >>
Scratch(t) == IF Shared THEN stat.scratch ELSE priv[t]
Write(t, s, c) == IF Shared THEN stat' = [const |-> c, scratch |-> s] /\ priv' = priv
                  ELSE stat' = [stat EXCEPT !.const = c] /\ priv' = [priv EXCEPT ![t] = s]
Step(t) ==
    /\ pc[t] <= 5 /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ hist' = Append(hist, t) /\ UNCHANGED job
    /\ LET s == Scratch(t)
           g == Stages[pc[t]]
       IN /\ Write(t, CASE g = "decrypt" -> [s EXCEPT !.msg = Msg(job[t])]
                        [] g = "encrypt" -> [s EXCEPT !.ct = Again(s.msg)]
                        [] g = "compare" -> [s EXCEPT !.bad = Bad(job[t], s.ct)]
                        [] OTHER -> s, 7)
          /\ out' = IF g = "select" THEN [out EXCEPT ![t] = Key(job[t], s.bad)] ELSE out
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars
Independent == \A t \in Threads : out[t] # << >> => out[t] = Alone(job[t])
View == << job, pc, priv, stat, out >>
\* schedules with at most two preemptions
Switches(h) == Cardinality({n \in 1 .. Len(h) - 1 : h[n] # h[n + 1]})
Few == Switches(hist) <= 3
Emit == (\A t \in Threads : pc[t] = 6) => PrintT("BEHAVIOUR " \o ToJson([sched |-> hist, jobs |-> [t \in Threads |-> job[t]]]))
=========================================================================
