--------------------------- MODULE PrngConform --------------------------
(* Recorded register accesses and results of the board's random source    *)
(* against the hardware of the model Prng.                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Bytes
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, hw
M == INSTANCE Prng WITH Lens <- {}, MaxReqs <- 0, Polls <- TRUE, Warm <- 4, Split <- 2,
                        pc <- "", i <- 0, n <- 0, out <- << >>, from <- 0, hist <- << >>
\* one access; s.v is what was written, or what the read gave
Access(h, s) ==
    CASE s.r = "word" /\ s.w -> M!HwWriteWord(h)
      [] s.r = "word" -> M!HwReadWord(h)
      [] s.r = "chk" /\ ~s.w -> M!HwReadChk(h, s.v % 2 = 1)
      [] s.r = "ctrl" /\ s.w -> M!HwWriteCtrl(h, (s.v \div 8) % 2 = 1, (s.v \div 2) % 4)
      [] s.r = "ctrl" -> h
      [] OTHER -> M!Err(h, "unknown register access")
RECURSIVE Run(_, _, _)
Run(h, a, k) == IF k > Len(a) THEN h ELSE Run(Access(h, a[k]), a, k + 1)
Written(a) == LET s == SelectSeq(a, LAMBDA x : x.r = "word" /\ x.w) IN [k \in DOMAIN s |-> s[k].v]
Got(a) == LET s == SelectSeq(a, LAMBDA x : x.r = "word" /\ ~x.w) IN [k \in DOMAIN s |-> s[k].v]
Halves(w) == << w % 256, (w \div 256) % 256 >>
Holds(b) == b
Init == l = 1 /\ hw = M!HwReset
\* power on, with the control register as given
DoReset(e) == hw' = [M!HwReset EXCEPT !.size = (e.ctrl \div 2) % 4]
\* initialisation with a key: it is loaded as given and 64 bits are discarded
DoInit(e) ==
    \E h \in {Run(hw, e.acc, 1)} :
      /\ h.err = "none"
      /\ e.key # << >> => Written(e.acc) = e.key
      /\ h.loaded = M!KeyWords /\ h.read >= M!MustDiscard /\ h.size = e.size /\ ~h.key /\ ~h.busy
      /\ e.rc >= 0 => e.rc = IF e.size = 0 THEN 1 ELSE 0
      /\ hw' = h
\* a request: its bytes are the halves of the next words
DoReq(e) ==
    \E h \in {Run(hw, e.acc, 1)} :
      /\ M!HwReady(hw) /\ M!HwReady(h)
      /\ Holds(LET w == TLCEval(Got(e.acc))
                   b == e.out
               IN /\ Len(b) = e.n
                  /\ Len(w) = (e.n + 1) \div 2
                  /\ \A k \in 1 .. e.n \div 2 :
                       LET x == Halves(w[k]) IN << b[2 * k - 1], b[2 * k] >> \in {x, << x[2], x[1] >>}
                  /\ e.n % 2 = 1 => \E k \in {1, 2} : b[e.n] = Halves(w[Len(w)])[k])
      /\ hw' = h
\* everything a whole program did with the generator
DoProgram(e) == \E h \in {Run(hw, e.acc, 1)} : M!HwReady(h) /\ hw' = h
StepOf(e) == CASE e.op = "reset" -> DoReset(e)
               [] e.op = "init" -> DoInit(e)
               [] e.op = "req" -> DoReq(e)
               [] e.op = "program" -> DoProgram(e)
               [] OTHER -> FALSE
Next == l <= Len(Trace) /\ StepOf(Trace[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
