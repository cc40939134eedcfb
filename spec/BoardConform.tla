--------------------------- MODULE BoardConform -------------------------
(* What the Cortex-M0 board measures and reports: recorded durations,     *)
(* counter results, register writes and characters on the serial line.    *)
(* Numbers of 32 bits are pairs of 16-bit limbs, low one first.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Bytes
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sent
Holds(b) == b

(*--------------------------- the cycle counter -------------------------*)
\* s: cycles for calls and one interrupt service (64, times the processor's wait states)
Minus(a, b) == WAdd(WAdd(a, WNot(b)), << 1, 0 >>)
Near(a, b, s) == LET d == Minus(a, b) IN (d[2] = 0 /\ d[1] <= s) \/ (d[2] = 65535 /\ d[1] >= 65536 - s)
DoMeasure(e) == Near(e.r, e.t, 64) /\ sent' = sent

(*---------------------------- the serial line --------------------------*)
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n       \* 0-9, A-F
Hex4(w) == << Digit(w \div 4096), Digit((w \div 256) % 16), Digit((w \div 16) % 16), Digit(w % 16) >>
Number(v) == << 48, 120 >> \o (IF Len(v) = 2 THEN Hex4(v[2]) ELSE << >>) \o Hex4(v[1]) \o << 13, 10 >>
Text(c) == CASE c.f = "trace" -> c.label \o Number(c.v)
             [] c.f \in {"addr", "word"} -> Number(c.v)
             [] c.f = "write" -> c.label
             [] OTHER -> << >>
\* a call: what is on the line (and in its queue) afterwards is what was there, and the text
DoCall(e) == /\ e.lost = 0
             /\ Holds(LET b == e.new IN b = Text(e))
             /\ sent' = sent + Len(e.new)
\* received characters: all of them, in order, and nothing else written
DoRead(e) == e.n = Len(e.given) /\ e.got = e.given /\ e.rest /\ sent' = sent

(*-------------------- initialisation of the serial port ----------------*)
\* e.before: register contents before; e.writes: << register, value >> in order. The module's registers take
\* writes once its clock runs; the clock gate takes them while the protection is off.
Bits(v, hi, lo) == LET x == v[1 + lo \div 16]
                   IN (x \div Pow2[lo % 16]) % Pow2[hi - lo + 1]      \* fields within a limb
Clocked(e, k) == \E j \in 1 .. k : /\ e.writes[j][1] = "CGATCLR0" /\ Bits(e.writes[j][2], 3, 3) = 1
                                   /\ \E i \in 1 .. j : /\ e.writes[i][1] = "PASSWD" /\ Bits(e.writes[i][2], 7, 0) = 192
                                                        /\ \A m \in i + 1 .. j : e.writes[m][1] # "PASSWD"
Module == {"KSCFG", "FDR", "BRG", "SCTR", "TCSR", "PCR", "TBCTR", "RBCTR", "CCR", "DX0CR", "DX3CR"}
Final(e, r) ==
    LET ok == {k \in DOMAIN e.writes : e.writes[k][1] = r /\ (r \in Module => Clocked(e, k))}
    IN IF ok = {} THEN e.before[r] ELSE e.writes[CHOOSE k \in ok : \A m \in ok : m <= k][2]
Clock == 8000000
\* baud rate: fractional divider, then three integer ones; 115200 within 2 percent
BaudOk(fdr, brg) ==
    LET div == (Bits(brg, 25, 16) + 1) * (Bits(brg, 9, 8) + 1) * (Bits(brg, 14, 10) + 1)
        rate == ((Clock \div 512) * Bits(fdr, 9, 0)) \div (2 * div)
    IN Bits(fdr, 15, 14) = 2 /\ Bits(brg, 1, 0) = 0 /\ Bits(brg, 4, 4) = 0 /\ 112900 < rate /\ rate < 117500
Size(c) == LET k == Bits(c, 26, 24) IN IF k = 0 THEN 0 ELSE 2 ^ k
From(c) == Bits(c, 5, 0)
DoInit(e) ==
    /\ Holds(LET F(r) == Final(e, r)
                 tx == F("TBCTR")
                 rx == F("RBCTR")
             IN /\ Bits(F("KSCFG"), 1, 0) = 3
                /\ BaudOk(F("FDR"), F("BRG"))
                \* words and frames of 8 bits, idle high, sent while there is data
                /\ Bits(F("SCTR"), 27, 24) = 7 /\ Bits(F("SCTR"), 21, 16) = 7 /\ Bits(F("SCTR"), 9, 8) = 1 /\ Bits(F("SCTR"), 1, 1) = 1
                /\ Bits(F("TCSR"), 11, 10) = 1 /\ Bits(F("TCSR"), 8, 8) = 1
                \* one stop bit, no parity, asynchronous; sampled inside the bit
                /\ Bits(F("PCR"), 0, 0) = 1 /\ Bits(F("PCR"), 1, 1) = 0 /\ Bits(F("PCR"), 15, 13) = 0
                /\ Bits(F("PCR"), 12, 8) <= Bits(F("BRG"), 14, 10) /\ Bits(F("PCR"), 12, 8) * 2 >= Bits(F("BRG"), 14, 10)
                /\ Bits(F("CCR"), 3, 0) = 2 /\ Bits(F("CCR"), 9, 8) = 0
                \* queues of 32 characters side by side in 64 entries
                /\ Size(tx) = 32 /\ Size(rx) >= 1 /\ From(tx) % Size(tx) = 0 /\ From(rx) % Size(rx) = 0
                /\ From(tx) + Size(tx) <= 64 /\ From(rx) + Size(rx) <= 64
                /\ (From(tx) + Size(tx) <= From(rx) \/ From(rx) + Size(rx) <= From(tx))
                \* pins: P2.1 is the output, P2.2 an input routed to the receiver, both digital
                /\ Bits(F("P2_IOCR0"), 15, 11) = 22 /\ Bits(F("P2_IOCR0"), 23, 19) = 0
                /\ Bits(F("DX3CR"), 2, 0) = 0 /\ Bits(F("DX0CR"), 2, 0) = 6
                /\ Bits(F("P2_PDISC"), 2, 1) = 0
                /\ Bits(F("PASSWD"), 7, 0) = 195)     \* protection back on
    /\ e.lost = 0 /\ e.new = e.given                  \* what was received before is echoed
    /\ sent' = Len(e.new)

(*-------------------------- the whole program --------------------------*)
\* e.times: how long the operations took; e.new: everything sent. One line for each, of a label and the count.
Label(s) == Len(s) >= 1 /\ \A k \in DOMAIN s : s[k] \in 32 .. 126
ValueOf(c) == IF c \in 48 .. 57 THEN c - 48 ELSE IF c \in 65 .. 70 THEN c - 55 ELSE -1
W4(s) == ((ValueOf(s[1]) * 16 + ValueOf(s[2])) * 16 + ValueOf(s[3])) * 16 + ValueOf(s[4])
LineOk(s, t, w) == /\ Len(s) > 12 /\ Label(Take(s, Len(s) - 12))
                /\ LET v == Drop(s, Len(s) - 12)
                   IN /\ Take(v, 2) = << 48, 120 >> /\ \A k \in 3 .. 10 : ValueOf(v[k]) >= 0
                      /\ v[11] = 13 /\ v[12] = 10
                      /\ Near(<< W4(Slice(v, 6, 4)), W4(Slice(v, 2, 4)) >>, t, 64 * w)
RECURSIVE Lines(_, _, _, _)
Lines(s, k, times, w) ==
    IF k > Len(times) THEN s = << >>
    ELSE LET ends == {j \in DOMAIN s : s[j] = 10}
         IN ends # {} /\ LET j == CHOOSE j \in ends : \A m \in ends : j <= m
                         IN LineOk(Take(s, j), times[k], w) /\ Lines(Drop(s, j), k + 1, times, w)
DoProgram(e) == e.lost = 0 /\ Len(e.times) = 3 /\ Lines(e.new, 1, e.times, e.slow) /\ sent' = 0

(*------------------------- the memory benchmark ------------------------*)
\* e.stack: how deep the operations went below the calling frame (keygen, encaps, decaps, then all three again);
\* e.new: one line each for the three, and one for all. Up to four bytes at the far end may happen to hold the
\* fill (StackMeter), up to 64 of the measuring function's frame may be counted.
Deep(v, d) == v[2] = 0 /\ v[1] >= d - 4 /\ v[1] <= d + 64
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
NumberOf(s) == LET v == Drop(s, Len(s) - 12)
               IN << W4(Slice(v, 6, 4)), W4(Slice(v, 2, 4)) >>
IsLine(s) == /\ Len(s) > 12 /\ Label(Take(s, Len(s) - 12))
             /\ LET v == Drop(s, Len(s) - 12)
                IN Take(v, 2) = << 48, 120 >> /\ (\A k \in 3 .. 10 : ValueOf(v[k]) >= 0) /\ v[11] = 13 /\ v[12] = 10
RECURSIVE Split(_)
Split(s) == IF s = << >> THEN << >>
            ELSE LET ends == {j \in DOMAIN s : s[j] = 10}
                 IN IF ends = {} THEN << s >>
                    ELSE LET j == CHOOSE j \in ends : \A m \in ends : j <= m IN << Take(s, j) >> \o Split(Drop(s, j))
DoMemory(e) == /\ e.lost = 0 /\ Len(e.stack) = 6
               /\ Holds(LET ls == Split(e.new)
                            d == << e.stack[1], e.stack[2], e.stack[3], Max({e.stack[4], e.stack[5], e.stack[6]}) >>
                        IN /\ Len(ls) = 4
                           /\ \A k \in 1 .. 4 : IsLine(ls[k]) /\ Deep(NumberOf(ls[k]), d[k]))
               /\ sent' = 0

(*------------------------ the evaluation script ------------------------*)
\* e.steps: what the script did, in order: "open" (at the serial port's speed), "make <program>" (which program
\* the sources selected), "flash", "read" (a line) and "print" (of an operation's number). e.sent: the lines
\* the two programs send; e.printed: << operation, unit, number >>.
Wanted == << "open", "make memory", "flash", "read", "print", "read", "print", "read", "print", "read", "print",
             "make speed", "flash", "read", "print", "read", "print", "read", "print" >>
Names == << "key", "enc", "dec", "total", "key", "enc", "dec" >>
DoScript(e) == /\ e.steps = Wanted /\ e.baud = 115200
               /\ Holds(LET ls == Split(e.sent)
                        IN /\ Len(ls) = 7 /\ Len(e.printed) = 7
                           /\ \A k \in 1 .. 7 : /\ IsLine(ls[k])
                                                /\ e.printed[k] = << Names[k], IF k <= 4 THEN "bytes" ELSE "cycles", NumberOf(ls[k]) >>)
               /\ sent' = 0

Init == l = 1 /\ sent = 0
StepOf(e) == CASE e.op = "measure" -> DoMeasure(e)
               [] e.op = "call" -> DoCall(e)
               [] e.op = "read" -> DoRead(e)
               [] e.op = "uart" -> DoInit(e)
               [] e.op = "program" -> DoProgram(e)
               [] e.op = "memory" -> DoMemory(e)
               [] e.op = "script" -> DoScript(e)
               [] OTHER -> FALSE
Next == l <= Len(Trace) /\ StepOf(Trace[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
