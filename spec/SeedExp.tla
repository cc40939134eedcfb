---------------------------- MODULE SeedExp ----------------------------
(* The seed expander as the buffer machine of the code (one block of B    *)
(* symbols, a position in it, a block counter, a budget) against its      *)
(* definition: a stream, cut by the requests, and a budget. Two contexts; *)
(* requests with and without output buffer, of every length up to and     *)
(* beyond the budget. Every history is emitted for replay.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS B, Budgets, MaxLen, MaxOps
Ctx == {"c", "d"}
VARIABLES rem, pos, ctr, got, used, init, last, hist
vars == << rem, pos, ctr, got, used, init, last, hist >>
Live == {c \in Ctx : init[c] # 0}

Init == /\ rem = [c \in Ctx |-> 0] /\ pos = rem /\ ctr = rem /\ used = rem /\ init = rem
        /\ got = [c \in Ctx |-> << >>] /\ last = << "none" >> /\ hist = << >>
\* symbol s of the stream of a context
Sym(c, s) == << init[c], s \div B, s % B >>
New(c) == \E m \in Budgets :
    /\ init[c] = 0
    /\ rem' = [rem EXCEPT ![c] = m] /\ pos' = [pos EXCEPT ![c] = B] /\ ctr' = [ctr EXCEPT ![c] = 0]
    /\ init' = [init EXCEPT ![c] = m] /\ got' = [got EXCEPT ![c] = << >>] /\ used' = [used EXCEPT ![c] = 0]
    /\ last' = << "init" >> /\ hist' = Append(hist, [op |-> "init", c |-> c, n |-> m])
\* the loop of the code: what is in the buffer, then whole new buffers
RECURSIVE Loop(_, _, _, _, _)
Loop(c, x, p, k, out) ==
    IF x = 0 THEN [p |-> p, k |-> k, out |-> out]
    ELSE IF x <= B - p THEN [p |-> p + x, k |-> k, out |-> out \o [i \in 1 .. x |-> << init[c], k - 1, p + i - 1 >>]]
    ELSE Loop(c, x - (B - p), 0, k + 1, out \o [i \in 1 .. (B - p) |-> << init[c], k - 1, p + i - 1 >>])
Request(c, n, nobuf) ==
    /\ init[c] # 0
    /\ hist' = Append(hist, [op |-> (IF nobuf THEN "null" ELSE "req"), c |-> c, n |-> n])
    /\ IF nobuf THEN last' = << "badbuf", c >> /\ UNCHANGED << rem, pos, ctr, got, used, init >>
       ELSE IF n >= rem[c] THEN last' = << "badlen", c, n >> /\ UNCHANGED << rem, pos, ctr, got, used, init >>
       ELSE LET r == Loop(c, n, pos[c], ctr[c], << >>)
            IN /\ last' = << "ok", c, n >>
               /\ rem' = [rem EXCEPT ![c] = @ - n] /\ pos' = [pos EXCEPT ![c] = r.p] /\ ctr' = [ctr EXCEPT ![c] = r.k]
               /\ got' = [got EXCEPT ![c] = @ \o r.out] /\ used' = [used EXCEPT ![c] = @ + n]
               /\ UNCHANGED init
Next == /\ Len(hist) < MaxOps
        /\ \/ \E c \in Ctx : New(c)
           \/ \E c \in Ctx, n \in 0 .. MaxLen : Request(c, n, FALSE)
           \/ \E c \in Ctx : Request(c, 1, TRUE)
Spec == Init /\ [][Next]_vars
\* the concatenation of the outputs is the stream
Stream == \A c \in Live : got[c] = [s \in 1 .. used[c] |-> Sym(c, s - 1)]
Budget == \A c \in Live : rem[c] = init[c] - used[c] /\ rem[c] > 0
Fresh == \A c \in Live : pos[c] \in 0 .. B
View == << rem, pos, ctr, got, used, init, last, Len(hist) >>
Emit == Len(hist) = MaxOps => PrintT("BEHAVIOUR " \o ToJson(hist))
========================================================================
