----------------------------- MODULE SysTick ----------------------------
(* The cycle counter of the Cortex-M0 board: a timer that counts down     *)
(* from Period-1 to 0 and raises an exception there, a handler that       *)
(* counts overflows, and the driver that starts, stops and reads it. The  *)
(* timer ticks, and the exception is taken, at any point between the      *)
(* driver's steps; the processor may take an exception up to Late ticks   *)
(* after it became pending, also after the driver masked interrupts (it   *)
(* is then not taken at all).                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Period, Late, MaxTicks, Rounds,
          HandlerClears,   \* the handler writes the counter, which clears it
          ChecksPending,   \* the driver counts an overflow that is pending
          ClearsPending,   \* the driver clears a pending exception at the start
          PerOverflow      \* what the driver adds for an overflow
VARIABLES pc, on, cvr, pend, age, masked, handling, ovf, el, t, round, wraps, hist
vars == << pc, on, cvr, pend, age, masked, handling, ovf, el, t, round, wraps, hist >>
hw == << on, cvr, pend, age >>
Top == Period - 1
Init == /\ pc = "off" /\ on = FALSE /\ cvr = 0 /\ pend = FALSE /\ age = 0 /\ masked = TRUE /\ handling = FALSE
        /\ ovf = 0 /\ el = 0 /\ t = 0 /\ round = 0 /\ wraps = 0 /\ hist = << >>

(*--------------------------- the hardware ------------------------------*)
Tick == /\ on /\ el < MaxTicks
        /\ ~(pend /\ ~masked /\ ~handling /\ age >= Late)       \* the exception is taken by then
        /\ ~(handling /\ age >= Late)                           \* and its handler finished
        /\ el' = el + 1
        /\ cvr' = (IF cvr = 0 THEN Top ELSE cvr - 1)
        /\ pend' = (pend \/ cvr = 1)
        /\ age' = (IF pend \/ handling THEN age + 1 ELSE 0)
        /\ wraps' = wraps + (IF cvr = 1 THEN 1 ELSE 0)
        /\ UNCHANGED << pc, on, masked, handling, ovf, t, round, hist >>
Enter == /\ pend /\ ~masked /\ ~handling /\ pc \notin {"off"}
         /\ handling' = TRUE /\ pend' = FALSE /\ age' = 0
         /\ UNCHANGED << pc, on, cvr, masked, ovf, el, t, round, wraps, hist >>
Serve == /\ handling
         /\ handling' = FALSE /\ age' = 0 /\ ovf' = ovf + 1
         /\ cvr' = (IF HandlerClears THEN 0 ELSE cvr)
         /\ UNCHANGED << pc, on, pend, masked, el, t, round, wraps, hist >>

(*---------------------------- the driver -------------------------------*)
Step(a, b) == pc = a /\ ~handling /\ pc' = b
Start1 == Step("off", "s1") /\ round < Rounds /\ masked' = TRUE /\ UNCHANGED << on, cvr, pend, age, handling, ovf, el, t, round, wraps, hist >>
Start2 == Step("s1", "s2") /\ ovf' = 0 /\ UNCHANGED << on, cvr, pend, age, masked, handling, el, t, round, wraps, hist >>
Start3 == Step("s2", "s3") /\ cvr' = 0 /\ UNCHANGED << on, pend, age, masked, handling, ovf, el, t, round, wraps, hist >>
Start4 == Step("s3", "s4") /\ pend' = (pend /\ ~ClearsPending) /\ UNCHANGED << on, cvr, age, masked, handling, ovf, el, t, round, wraps, hist >>
Start5 == Step("s4", "s5") /\ masked' = FALSE /\ UNCHANGED << on, cvr, pend, age, handling, ovf, el, t, round, wraps, hist >>
Start6 == Step("s5", "run") /\ on' = TRUE /\ el' = 0 /\ wraps' = 0 /\ UNCHANGED << cvr, pend, age, masked, handling, ovf, t, round, hist >>
Stop == Step("run", "e1") /\ on' = FALSE /\ UNCHANGED << cvr, pend, age, masked, handling, ovf, el, t, round, wraps, hist >>
Mask == Step("e1", "e2") /\ masked' = TRUE /\ UNCHANGED << on, cvr, pend, age, handling, ovf, el, t, round, wraps, hist >>
Read == /\ Step("e2", "e3")
        /\ t' = (IF HandlerClears THEN Top - cvr ELSE (Period - cvr) % Period)
        /\ UNCHANGED << on, cvr, pend, age, masked, handling, ovf, el, round, wraps, hist >>
Add == Step("e3", "e4") /\ t' = t + ovf * PerOverflow /\ UNCHANGED << on, cvr, pend, age, masked, handling, ovf, el, round, wraps, hist >>
Late1 == /\ Step("e4", "done") /\ t' = t + (IF ChecksPending /\ pend THEN Period ELSE 0)
         /\ hist' = Append(hist, << wraps, el - wraps * Period >>)
         /\ UNCHANGED << on, cvr, pend, age, masked, handling, ovf, el, round, wraps >>
Again == Step("done", "off") /\ round' = round + 1 /\ t' = 0 /\ el' = 0 /\ wraps' = 0 /\ UNCHANGED << on, cvr, pend, age, masked, handling, ovf, hist >>
Next == Tick \/ Enter \/ Serve \/ Start1 \/ Start2 \/ Start3 \/ Start4 \/ Start5 \/ Start6 \/ Stop \/ Mask \/ Read \/ Add \/ Late1 \/ Again
Spec == Init /\ [][Next]_vars

(*--------------------------- what is promised --------------------------*)
Exact == pc = "done" => t = el
Emit == (pc = "off" /\ round = Rounds) => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
