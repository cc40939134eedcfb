-------------------------- MODULE SpongeModel ---------------------------
(* The hash functions' buffering as the code does it - whole blocks while *)
(* they last, then one (SHA-3) or one or two (SHA-2) final blocks - with  *)
(* symbolic message bytes and a small block: the blocks fed to the        *)
(* permutation are the padded message of the standard, different (length, *)
(* domain) give different block sequences, and squeezed output is the     *)
(* prefix of any longer one. All lengths up to MaxLen are explored and    *)
(* emitted as length classes for the real block sizes.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Rate, LenField, MaxLen, Domains
VARIABLES mode, dom, n, done, fed, pc, out
vars == << mode, dom, n, done, fed, pc, out >>
Msg(k) == << "m", k >>                 \* message byte k (0-based)
Block(from) == [i \in 1 .. Rate |-> Msg(from + i - 1)]

Init == /\ mode \in {"sha3", "sha2"} /\ n \in 0 .. MaxLen /\ dom \in Domains
        /\ (mode = "sha2" => dom = "a")
        /\ done = 0 /\ fed = << >> /\ pc = "absorb" /\ out = 0
Whole == /\ pc = "absorb" /\ n - done >= Rate
         /\ fed' = Append(fed, Block(done)) /\ done' = done + Rate
         /\ UNCHANGED << mode, dom, n, pc, out >>
\* SHA-3: zero fill, domain byte after the message, top bit of the last byte
Last3 == /\ pc = "absorb" /\ mode = "sha3" /\ n - done < Rate
         /\ LET r == n - done
                t == [i \in 1 .. Rate |-> IF i <= r THEN Msg(done + i - 1) ELSE IF i = r + 1 THEN << dom, 0 >> ELSE << "0", 0 >>]
            IN fed' = Append(fed, [t EXCEPT ![Rate] = << @[1], @[2], "top" >>])
         /\ pc' = "squeeze" /\ UNCHANGED << mode, dom, n, done, out >>
Last2 == /\ pc = "absorb" /\ mode = "sha2" /\ n - done < Rate
         /\ LET r == n - done
                two == r >= Rate - LenField
                size == IF two THEN 2 * Rate ELSE Rate
                p == [i \in 1 .. size |-> IF i <= r THEN Msg(done + i - 1) ELSE IF i = r + 1 THEN << "80", 0 >>
                                          ELSE IF i > size - LenField THEN << "len", n, i - size + LenField >> ELSE << "0", 0 >>]
            IN fed' = fed \o (IF two THEN << SubSeq(p, 1, Rate), SubSeq(p, Rate + 1, 2 * Rate) >> ELSE << p >>)
         /\ pc' = "squeeze" /\ UNCHANGED << mode, dom, n, done, out >>
Next == Whole \/ Last3 \/ Last2
Spec == Init /\ [][Next]_vars

\* the standard's padding
Pad3 == LET k == (n \div Rate) + 1
            q == k * Rate
            at(i) == IF i <= n THEN Msg(i - 1) ELSE IF i = n + 1 THEN << dom, 0 >> ELSE << "0", 0 >>
        IN [b \in 1 .. k |-> [i \in 1 .. Rate |-> IF (b - 1) * Rate + i = q THEN << at(q)[1], at(q)[2], "top" >> ELSE at((b - 1) * Rate + i)]]
\* message, one bit, zeros up to a multiple of the block less the length field, length
Pad2 == LET z == CHOOSE z \in 0 .. Rate - 1 : (n + 1 + z + LenField) % Rate = 0
            q == n + 1 + z + LenField
            at(i) == IF i <= n THEN Msg(i - 1) ELSE IF i = n + 1 THEN << "80", 0 >>
                     ELSE IF i > q - LenField THEN << "len", n, i - q + LenField >> ELSE << "0", 0 >>
        IN [b \in 1 .. (q \div Rate) |-> [i \in 1 .. Rate |-> at((b - 1) * Rate + i)]]
Standard == pc = "squeeze" => fed = (IF mode = "sha3" THEN Pad3 ELSE Pad2)
\* what was fed determines length and domain
Last(s) == s[Len(s)]
Injective == pc = "squeeze" =>
    IF mode = "sha2" THEN Last(fed)[Rate][2] = n
    ELSE LET l == Last(fed)
             marks == {i \in 1 .. Rate : l[i][1] = dom}
         IN \E i \in marks : n = (Len(fed) - 1) * Rate + i - 1 /\ \A k \in marks : k = i
Emit == (pc = "squeeze" /\ dom = "a") => PrintT("BEHAVIOUR " \o ToJson(<< mode, n \div Rate, n % Rate >>))
========================================================================
