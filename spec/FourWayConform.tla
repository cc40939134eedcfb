------------------------- MODULE FourWayConform -------------------------
(* Recorded calls of the four-way Keccak library: each is a step on four  *)
(* states of 200 bytes (FourWay at full size, with the permutation of     *)
(* Keccak in place of its symbol), with exactly the answer it should give.*)
EXTENDS Fast, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st      \* next line; the states of each instance of the library's memory
Bytes(h) == FHex(h)
Holds(b) == IF b THEN TRUE ELSE FALSE
Init == l = 1 /\ st = << >>
\* f applied to bytes off .. off+len-1 of a state
On(s, off, len, f(_, _)) == TLCEval([b \in 1 .. 200 |-> IF b > off /\ b <= off + len THEN f(s[b], b - off) ELSE s[b]])
\* lanes 0 .. c-1 of all, from data at distance d
OnAll(ss, c, d, f(_, _)) == TLCEval([k \in DOMAIN ss |-> On(ss[k], 0, 8 * c, LAMBDA x, j : f(x, 8 * d * (k - 1) + j))])
Permuted(ss, r) == TLCEval([k \in DOMAIN ss |-> FKeccakP(ss[k], r)])
\* a loop over data: blocks that fit, one after the other
Loop(ss, c, d, step, data, r) ==
    LET need == 8 * (3 * d + c)
        rounds == IF Len(data) < need THEN 0 ELSE ((Len(data) - need) \div (8 * step)) + 1
    IN [n |-> 8 * step * rounds,
        st |-> Fold(LAMBDA a, i : Permuted(OnAll(a, c, d, LAMBDA x, j : x ^^ data[8 * step * (i - 1) + j]), r), ss, UpTo(rounds))]
\* an answer for all instances in a buffer that held e.pre: elsewhere it is as before
Spread(e, ss, g(_, _)) == TLCEval([p \in 1 .. Len(e.out) \div 2 |->
    LET hit == {k \in DOMAIN ss : p > 8 * e.d * (k - 1) /\ p <= 8 * e.d * (k - 1) + 8 * e.c}
    IN IF hit = {} THEN e.fill ELSE LET k == CHOOSE k \in hit : TRUE IN g(ss[k][p - 8 * e.d * (k - 1)], p)])
Is(e, out) == FToHex(out) = e.out
StepOf(e) ==
    LET f == e.op
    IN IF f = "init" THEN st' = [x \in DOMAIN st \cup {e.i} |-> IF x = e.i THEN [k \in 1 .. e.n |-> Zeros(200)] ELSE st[x]]
       ELSE \E s \in {st[e.i]}, data \in {IF "in" \in DOMAIN e THEN Bytes(e.in) ELSE << >>} :
         LET one(g(_, _), off, len) == st' = [st EXCEPT ![e.i] = [s EXCEPT ![e.k] = On(s[e.k], off, len, g)]]
             all(g(_, _)) == st' = [st EXCEPT ![e.i] = OnAll(s, e.c, e.d, g)]
         IN CASE f = "add" -> one(LAMBDA x, j : x ^^ data[j], e.off, Len(data))
              [] f = "byte" -> one(LAMBDA x, j : x ^^ e.v, e.off, 1)
              [] f = "over" -> one(LAMBDA x, j : data[j], e.off, Len(data))
              [] f = "clear" -> one(LAMBDA x, j : 0, 0, e.len)
              [] f = "get" -> Holds(Is(e, Slice(s[e.k], e.off, e.len))) /\ st' = st
              [] f = "getadd" -> Holds(Is(e, XorB(Slice(s[e.k], e.off, Len(data)), data))) /\ st' = st
              [] f = "addall" -> all(LAMBDA x, j : x ^^ data[j])
              [] f = "overall" -> all(LAMBDA x, j : data[j])
              [] f = "getall" -> Holds(Is(e, Spread(e, s, LAMBDA x, p : x))) /\ st' = st
              [] f = "getaddall" -> Holds(Is(e, Spread(e, s, LAMBDA x, p : x ^^ data[p]))) /\ st' = st
              [] f = "perm12" -> st' = [st EXCEPT ![e.i] = Permuted(s, 12)]
              [] f = "perm24" -> st' = [st EXCEPT ![e.i] = Permuted(s, 24)]
              [] f \in {"loop12", "loop24"} ->
                   \E r \in {Loop(s, e.c, e.d, e.step, data, IF f = "loop12" THEN 12 ELSE 24)} :
                     Holds(r.n = e.rc) /\ st' = [st EXCEPT ![e.i] = r.st]
              [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Trace[l].op # "crash" /\ Trace[l].canary /\ Trace[l].inputs /\ StepOf(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<< l, st >>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
========================================================================
