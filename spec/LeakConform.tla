--------------------------- MODULE LeakConform --------------------------
(* Conformance of monitored executions with the specification's only       *)
(* statement about what an observer sees: a function of the operation and  *)
(* its public inputs (noninterference).                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
M == INSTANCE Leak WITH MaxLen <- 0, Broken <- FALSE, s <- << >>, hist <- << >>
Init == l = 1 /\ seen = << >>
RECURSIVE Run(_, _, _)
Run(x, p, n) == IF n > Len(p) THEN x ELSE Run(M!Apply(x, p[n]), p, n + 1)
\* the monitor itself: its alarm on a program of the abstract machine
DoProg(e) == e.alarm = Run(M!Begin, e.prog, 1).alarm /\ UNCHANGED seen
\* the observer of the processor's addresses: equal observations of both runs exactly if the abstract ones agree
DoWatch(e) == e.same = Run(M!Begin, e.prog, 1).same /\ UNCHANGED seen
\* a monitored call: no branch and no address depends on a secret
DoTaint(e) == e.rc = 0 /\ e.alarms = 0 /\ UNCHANGED seen
\* a stepped call: what was executed is a function of the operation and its public inputs
DoSteps(e) ==
    LET key == << e.g, e.fn, e.pub >>
        val == << e.n, e.h >>
    IN /\ e.rc = 0
       /\ key \in DOMAIN seen => seen[key] = val
       /\ seen' = [x \in DOMAIN seen \cup {key} |-> IF x = key THEN val ELSE seen[x]]
StepOf(e) == CASE e.op = "prog" -> DoProg(e)
               [] e.op = "watch" -> DoWatch(e)
               [] e.op = "taint" -> DoTaint(e)
               [] e.op = "steps" -> DoSteps(e)
               [] OTHER -> FALSE
Next == l <= Len(Trace) /\ StepOf(Trace[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
