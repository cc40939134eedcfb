----------------------------- MODULE Stream -----------------------------
(* Matrix generation on the Cortex-M0, one polynomial per call: squeezed  *)
(* blocks go behind what is left in a byte bank, whole 13-byte groups are *)
(* cut off for the polynomial, the rest moves to the front. A call with   *)
(* number 0 starts over (with its seed), any other continues. Whatever    *)
(* the history of calls, polynomial k of a run consists of the bytes      *)
(* k*Groups*Group .. of that seed's stream, and the bank never overflows. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Rate, Cap, Group, Groups, Polys, Seeds, MaxCalls, KeepLeftovers
VARIABLES seed,    \* of the current run
          got,     \* blocks squeezed in this run
          bank,    \* the buffer: << seed, stream position >> of each byte, or junk
          left,    \* bytes left over in front
          at,      \* groups of the current polynomial already there
          poly,    \* the polynomial: what each byte of its groups is
          made,    \* polynomials finished in this run
          pc, hist
vars == << seed, got, bank, left, at, poly, made, pc, hist >>
Junk == << "-", -1 >>
Init == /\ seed = "-" /\ got = 0 /\ bank = [i \in 1 .. Cap |-> Junk] /\ left = 0 /\ at = 0
        /\ poly = << >> /\ made = 0 /\ pc = "idle" /\ hist = << >>
Restart(s) == /\ pc = "idle" /\ Len(hist) < MaxCalls
              /\ seed' = s /\ got' = 0 /\ made' = 0 /\ at' = 0 /\ poly' = << >> /\ pc' = "squeeze"
              /\ left' = IF KeepLeftovers THEN left ELSE 0
              /\ hist' = Append(hist, [seed |-> s, n |-> 0]) /\ UNCHANGED bank
Continue == /\ pc = "idle" /\ seed # "-" /\ made < Polys /\ Len(hist) < MaxCalls
            /\ poly' = << >> /\ pc' = "squeeze"
            /\ hist' = Append(hist, [seed |-> seed, n |-> made])
            /\ UNCHANGED << seed, got, bank, left, at, made >>
Squeeze == /\ pc = "squeeze" /\ left + Rate <= Cap
           /\ bank' = TLCEval([i \in 1 .. Cap |-> IF i > left /\ i <= left + Rate THEN << seed, got * Rate + i - left - 1 >> ELSE bank[i]])
           /\ got' = got + 1 /\ pc' = "cut" /\ UNCHANGED << seed, left, at, poly, made, hist >>
Cut == /\ pc = "cut"
       /\ LET total == left + Rate
              whole == total \div Group
              use == IF whole + at > Groups THEN Groups - at ELSE whole
          IN /\ poly' = poly \o SubSeq(bank, 1, use * Group)
             /\ left' = total - use * Group
             /\ bank' = TLCEval([i \in 1 .. Cap |-> IF i <= left' THEN bank[use * Group + i] ELSE bank[i]])
             /\ IF at + use = Groups THEN at' = 0 /\ made' = made + 1 /\ pc' = "idle"
                                     ELSE at' = at + use /\ made' = made /\ pc' = "squeeze"
       /\ UNCHANGED << seed, got, hist >>
Next == (\E s \in Seeds : Restart(s)) \/ Continue \/ Squeeze \/ Cut
Spec == Init /\ [][Next]_vars

Sliced == (pc = "idle" /\ made > 0) => poly = [i \in 1 .. Groups * Group |-> << seed, (made - 1) * Groups * Group + i - 1 >>]
Fits == pc = "squeeze" => left + Rate <= Cap
Done == Len(hist) = MaxCalls /\ pc = "idle"
Emit == Done => PrintT("BEHAVIOUR " \o ToJson(hist))
View == << seed, got, bank, left, at, poly, made, pc, Len(hist) >>
========================================================================
