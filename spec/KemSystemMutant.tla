------------------------ MODULE KemSystemMutant ------------------------
(* A planted error: the comparison of the re-encryption overlooks small   *)
(* changes of the ciphertext. TLC must refute it.                         *)
EXTENDS KemSystem
BadDecT(k, ct) == LET m == PkeDecT(k, ct)
                      again == CtOf(k, m, Coins(m, k))
                  IN IF again.coins = ct.coins /\ again.key = ct.key THEN << "K", m, k, again >> ELSE << "Z", k, ct >>
========================================================================
