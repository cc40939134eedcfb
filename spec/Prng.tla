------------------------------ MODULE Prng ------------------------------
(* The random source of the Cortex-M0 board: the hardware generator with  *)
(* its three registers, the initialisation that loads an 80-bit key word  *)
(* by word and discards 64 bits, and requests for any number of bytes.    *)
(* The hardware part (Hw...) is also what recorded register accesses are  *)
(* judged against (PrngConform).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lens,     \* lengths of requests
          MaxReqs,  \* requests per behaviour
          Polls,    \* the driver waits for the generator between key words
          Warm,     \* words the driver discards
          Split     \* bytes the driver takes from one word
VARIABLES hw, pc, i, n, out, from, hist
vars == << hw, pc, i, n, out, from, hist >>

(*--------------------------- the hardware ------------------------------*)
KeyWords == 5
MustDiscard == 4      \* 64 bits
HwReset == [key |-> FALSE, size |-> 0, loaded |-> 0, busy |-> FALSE, read |-> 0, err |-> "none"]
Err(h, e) == IF h.err = "none" THEN [h EXCEPT !.err = e] ELSE h
\* a write of the data register: a key word
HwWriteWord(h) ==
    IF ~h.key THEN Err(h, "key word outside of key loading mode")
    ELSE IF h.busy THEN Err(h, "key word while the last one is not taken")
    ELSE IF h.size # 2 THEN Err(h, "key word without word size")
    ELSE IF h.loaded = KeyWords THEN Err(h, "too many key words")
    ELSE [h EXCEPT !.loaded = @ + 1, !.busy = TRUE]
\* a read of the status register
HwReadChk(h, valid) == IF valid THEN [h EXCEPT !.busy = FALSE] ELSE h
HwWriteCtrl(h, key, size) ==
    IF h.busy THEN Err(h, "control while a key word is not taken")
    ELSE IF h.key /\ ~key /\ h.loaded # KeyWords THEN Err(h, "key loading left with part of the key")
    ELSE IF key /\ ~h.key THEN [h EXCEPT !.key = TRUE, !.size = size, !.loaded = 0, !.read = 0]
    ELSE [h EXCEPT !.key = key, !.size = size]
\* a read of the data register: the next word
HwReadWord(h) ==
    IF h.key THEN Err(h, "data in key loading mode")
    ELSE IF h.loaded # KeyWords THEN Err(h, "data without a key")
    ELSE IF h.size = 0 THEN Err(h, "data without a block size")
    ELSE [h EXCEPT !.read = @ + 1]
HwReady(h) == h.err = "none" /\ ~h.key /\ ~h.busy /\ h.loaded = KeyWords /\ h.size = 2 /\ h.read >= MustDiscard

(*---------------------------- the driver -------------------------------*)
Init == hw = HwReset /\ pc = "off" /\ i = 0 /\ n = 0 /\ out = << >> /\ from = 0 /\ hist = << >>
Goto(p) == pc' = p
Configure == /\ pc = "off" \/ (pc = "idle" /\ Len(hist) < MaxReqs)
             /\ hw' = HwWriteCtrl(hw, hw.key, 2) /\ Goto("enter")
             /\ hist' = (IF pc = "off" THEN hist ELSE Append(hist, -1)) /\ UNCHANGED << i, n, out, from >>
Enter == pc = "enter" /\ hw' = HwWriteCtrl(hw, TRUE, hw.size) /\ Goto("load") /\ i' = 0 /\ UNCHANGED << n, out, from, hist >>
Load == /\ pc = "load" /\ i < KeyWords
        /\ hw' = HwWriteWord(hw) /\ i' = i + 1 /\ Goto(IF Polls THEN "poll" ELSE "load") /\ UNCHANGED << n, out, from, hist >>
Poll == /\ pc = "poll"
        /\ \E valid \in {FALSE, TRUE} : hw' = HwReadChk(hw, valid) /\ Goto(IF valid THEN "load" ELSE "poll")
        /\ UNCHANGED << i, n, out, from, hist >>
Leave == pc = "load" /\ i = KeyWords /\ hw' = HwWriteCtrl(hw, FALSE, hw.size) /\ Goto("warm") /\ i' = 0 /\ UNCHANGED << n, out, from, hist >>
Discard == pc = "warm" /\ i < Warm /\ hw' = HwReadWord(hw) /\ i' = i + 1 /\ UNCHANGED << pc, n, out, from, hist >>
Finish == pc = "warm" /\ i = Warm /\ hw' = HwWriteCtrl(hw, FALSE, 2) /\ Goto("idle") /\ out' = << >> /\ from' = hw.read /\ UNCHANGED << i, n, hist >>
Request == /\ pc = "idle" /\ Len(hist) < MaxReqs
           /\ \E k \in Lens : n' = k /\ hist' = Append(hist, k)
           /\ out' = << >> /\ from' = hw.read /\ Goto("serve") /\ UNCHANGED << hw, i >>
\* a word: its two halves, and what lies behind them in a 32-bit register (constant)
Half(w, k) == IF k < 2 THEN << w, k >> ELSE << 0, 2 >>
Serve == /\ pc = "serve" /\ n > 0
         /\ hw' = HwReadWord(hw)
         /\ LET m == IF n < Split THEN n ELSE Split
            IN out' = out \o [k \in 1 .. m |-> Half(hw.read + 1, k - 1)] /\ n' = n - m
         /\ UNCHANGED << pc, i, from, hist >>
Served == pc = "serve" /\ n = 0 /\ Goto("idle") /\ UNCHANGED << hw, i, n, out, from, hist >>
Next == Configure \/ Enter \/ Load \/ Poll \/ Leave \/ Discard \/ Finish \/ Request \/ Serve \/ Served
Spec == Init /\ [][Next]_vars

(*--------------------------- what is promised --------------------------*)
Obeyed == hw.err = "none"
Prepared == pc \in {"idle", "serve"} => HwReady(hw)
\* byte k of a request comes from word (k+1) \div 2 since its start, and the two bytes of a word are its halves
Delivered == /\ pc = "idle" => hw.read = from + (Len(out) + 1) \div 2
             /\ \A k \in DOMAIN out : out[k][1] = from + (k + 1) \div 2
             /\ Cardinality({out[k] : k \in DOMAIN out}) = Len(out)
Done == Len(hist) = MaxReqs /\ pc = "idle"
Emit == Done => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
