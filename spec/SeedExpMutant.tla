------------------------- MODULE SeedExpMutant --------------------------
(* A planted error: a refused request is charged to the budget.           *)
EXTENDS SeedExp
BadRequest(c, n, nobuf) ==
    /\ init[c] # 0
    /\ hist' = Append(hist, [op |-> (IF nobuf THEN "null" ELSE "req"), c |-> c, n |-> n])
    /\ IF nobuf THEN last' = << "badbuf", c >> /\ UNCHANGED << rem, pos, ctr, got, used, init >>
       ELSE IF n >= rem[c] THEN last' = << "badlen", c, n >> /\ rem' = [rem EXCEPT ![c] = @ - n] /\ UNCHANGED << pos, ctr, got, used, init >>
       ELSE LET r == Loop(c, n, pos[c], ctr[c], << >>)
            IN /\ last' = << "ok", c, n >>
               /\ rem' = [rem EXCEPT ![c] = @ - n] /\ pos' = [pos EXCEPT ![c] = r.p] /\ ctr' = [ctr EXCEPT ![c] = r.k]
               /\ got' = [got EXCEPT ![c] = @ \o r.out] /\ used' = [used EXCEPT ![c] = @ + n]
               /\ UNCHANGED init
=========================================================================
