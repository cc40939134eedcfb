------------------------------- MODULE Uart -----------------------------
(* Reports over the serial port of the Cortex-M0 board: the driver puts   *)
(* the characters of a report into the transmit queue of Cap entries, the *)
(* line takes them out one by one whenever it is ready; a character put   *)
(* into a full queue is lost. The driver waits for an empty queue before  *)
(* a report, not between its characters.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cap,        \* entries of the queue
          Labels,     \* lengths of labels
          Trailer,    \* characters after the label
          MaxReports,
          Waits       \* "empty", "room" (one free entry) or "no"
VARIABLES queue, line, want, left, next, reports, hist
vars == << queue, line, want, left, next, reports, hist >>
Init == queue = << >> /\ line = << >> /\ want = << >> /\ left = 0 /\ next = 1 /\ reports = 0 /\ hist = << >>
Drain == queue # << >> /\ line' = Append(line, Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED << want, left, next, reports, hist >>
MayStart == CASE Waits = "empty" -> queue = << >> [] Waits = "room" -> Len(queue) < Cap [] OTHER -> TRUE
\* hist: length of the label, and how many characters of the last report were still queued when the call came
Report == /\ left = 0 /\ reports < MaxReports /\ MayStart
          /\ \E k \in Labels : /\ left' = k + Trailer
                               /\ \E waiting \in 0 .. Cap : /\ waiting >= Len(queue) /\ (reports = 0 => waiting = 0)
                                                            /\ hist' = Append(hist, << k, waiting >>)
          /\ reports' = reports + 1 /\ UNCHANGED << queue, line, want, next >>
Put == /\ left > 0
       /\ want' = Append(want, next) /\ next' = next + 1 /\ left' = left - 1
       /\ queue' = (IF Len(queue) < Cap THEN Append(queue, next) ELSE queue)
       /\ UNCHANGED << line, reports, hist >>
Next == Drain \/ Report \/ Put
Spec == Init /\ [][Next]_vars
Complete == line \o queue = want
Emit == (left = 0 /\ reports = MaxReports /\ queue = << >>) => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
