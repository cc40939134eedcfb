--------------------------- MODULE LawConform ---------------------------
(* Conformance of recorded law computations: one line of the trace is one  *)
(* call of the scripts' probability utilities on laws computed earlier.    *)
EXTENDS Laws, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == << l, reg >>
Init == l = 1 /\ reg = << >>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Holds(b) == IF b THEN TRUE ELSE FALSE
\* the law an event carries: all weights were multiples of 1 / (q 2^e), all values integers, none twice
Of(e) == [q |-> e.q, e |-> e.e,
          w |-> TLCEval([x \in {e.w[j][1] : j \in 1 .. Len(e.w)} |-> (CHOOSE j \in 1 .. Len(e.w) : e.w[j][1] = x)])]
LawOf(e) == LET o == Of(e) IN [o EXCEPT !.w = TLCEval([x \in DOMAIN o.w |-> e.w[o.w[x]][2]])]
Sound(e) == e.exact /\ e.kept /\ Cardinality({e.w[j][1] : j \in 1 .. Len(e.w)}) = Len(e.w)
\* binary and unary constructions with one possible result
Built(e) == CASE e.f = "binom" -> CentredBinomial(e.k)
              [] e.f = "given" -> LawOf(e)
              [] e.f = "conv" -> Convolution(reg[e.s], reg[e.t])
              [] e.f = "prod" -> Product(reg[e.s], reg[e.t])
              [] e.f = "iter" -> Iterate(reg[e.s], e.k)
              [] e.f = "diff" -> Differences(reg[e.s], e.k)
DoLaw(e) ==
    /\ Sound(e)
    /\ \E L \in {LawOf(e)} :
         /\ IF e.f = "errlaw" THEN Holds(IsErrorLaw(L, e.m, e.n))
            ELSE IF e.f = "clean" THEN Holds(Cleaned(reg[e.s], L))
            ELSE \E M \in {Built(e)} : Holds(Same(L, M))
         /\ reg' = IF e.r = "" THEN reg ELSE Put(reg, e.r, L)
DoTail(e) == e.exact /\ e.kept /\ Holds(e.v = Beyond(reg[e.s], e.t2)) /\ UNCHANGED reg
DoStat(e) == e.exact /\ e.kept /\ UNCHANGED reg /\ Holds(
    LET L == reg[e.s]
        den == L.q * 2 ^ L.e
    IN e.mean = MeanNum(L) /\ e.var = den * SquareNum(L) - MeanNum(L) * MeanNum(L))
\* tables of scalar functions
DoTable(e) == e.exact /\ UNCHANGED reg /\ Holds(
    CASE e.f = "binomial" -> \A j \in 1 .. Len(e.rows) : e.rows[j][3] = Binomial(e.rows[j][1], e.rows[j][2])
      [] e.f = "pdf" -> \A j \in 1 .. Len(e.rows) : e.rows[j][3] = Binomial(2 * e.rows[j][1], e.rows[j][2] + e.rows[j][1])
      [] e.f = "switch" -> \A j \in 1 .. Len(e.rows) : e.rows[j][4] \in Switched(e.rows[j][1], e.rows[j][2], e.rows[j][3])
      [] e.f = "centred" -> \A j \in 1 .. Len(e.rows) : e.rows[j][3] \in Centred(e.rows[j][1], e.rows[j][2]))
StepOf(e) == CASE e.op = "law" -> DoLaw(e)
               [] e.op = "tail" -> DoTail(e)
               [] e.op = "stat" -> DoStat(e)
               [] e.op = "table" -> DoTable(e)
               [] e.op = "fresh" -> reg' = << >>
               [] OTHER -> FALSE
Next == l <= Len(Trace) /\ StepOf(Trace[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
