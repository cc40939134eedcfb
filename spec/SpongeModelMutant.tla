----------------------- MODULE SpongeModelMutant ------------------------
(* Planted errors: SHA-2 decides one byte late that the length field no   *)
(* longer fits; SHA-3's final bit replaces what is in its byte.           *)
EXTENDS SpongeModel
BadLast2 == /\ pc = "absorb" /\ mode = "sha2" /\ n - done < Rate
            /\ LET r == n - done
                   two == r > Rate - LenField
                   size == IF two THEN 2 * Rate ELSE Rate
                   p == [i \in 1 .. size |-> IF i <= r THEN Msg(done + i - 1) ELSE IF i = r + 1 THEN << "80", 0 >>
                                             ELSE IF i > size - LenField THEN << "len", n, i - size + LenField >> ELSE << "0", 0 >>]
               IN fed' = fed \o (IF two THEN << SubSeq(p, 1, Rate), SubSeq(p, Rate + 1, 2 * Rate) >> ELSE << p >>)
            /\ pc' = "squeeze" /\ UNCHANGED << mode, dom, n, done, out >>
BadLast3 == /\ pc = "absorb" /\ mode = "sha3" /\ n - done < Rate
            /\ LET r == n - done
                   t == [i \in 1 .. Rate |-> IF i <= r THEN Msg(done + i - 1) ELSE IF i = r + 1 THEN << dom, 0 >> ELSE << "0", 0 >>]
               IN fed' = Append(fed, [t EXCEPT ![Rate] = << "0", 0, "top" >>])
            /\ pc' = "squeeze" /\ UNCHANGED << mode, dom, n, done, out >>
=========================================================================
