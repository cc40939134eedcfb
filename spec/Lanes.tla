----------------------------- MODULE Lanes ------------------------------
(* The four-way decapsulation as a lockstep vector machine: every stage   *)
(* works on all lanes at once, and lanes carry any mixture of honest,     *)
(* tampered and misdirected ciphertexts. Each lane must end like a single *)
(* instance, and a stage of one lane must read that lane only. Every      *)
(* initial state is emitted and replayed on the real code.                *)
EXTENDS Naturals, Sequences, TLC, Json
Lane == 1 .. 4
\* what the lane's ciphertext is, relative to the key the lane uses
Kinds == {"honest", "small", "large", "foreign"}
VARIABLES kind, pc, msg, again, bad, out
vars == << kind, pc, msg, again, bad, out >>

\* ciphertext terms: owner lane, message, change
Ct(l) == CASE kind[l] = "honest" -> << l, "m", "none" >>
           [] kind[l] = "small" -> << l, "m", "small" >>
           [] kind[l] = "large" -> << l, "m", "large" >>
           [] kind[l] = "foreign" -> << (l % 4) + 1, "m", "none" >>
Decrypt(l, c) == IF c[1] = l /\ c[3] \in {"none", "small"} THEN c[2] ELSE "garbled"
Encrypt(l, m) == << l, m, "none" >>
Single(l) == IF Encrypt(l, Decrypt(l, Ct(l))) = Ct(l) THEN << "K", l >> ELSE << "Z", l, Ct(l) >>

Init == /\ kind \in [Lane -> Kinds]
        /\ pc = "decrypt"
        /\ msg = [l \in Lane |-> ""] /\ again = msg /\ bad = [l \in Lane |-> FALSE] /\ out = [l \in Lane |-> << >>]
StageDecrypt == /\ pc = "decrypt" /\ pc' = "encrypt"
                /\ msg' = [l \in Lane |-> Decrypt(l, Ct(l))]
                /\ UNCHANGED << kind, again, bad, out >>
StageEncrypt == /\ pc = "encrypt" /\ pc' = "compare"
                /\ again' = [l \in Lane |-> Encrypt(l, msg[l])]
                /\ UNCHANGED << kind, msg, bad, out >>
StageCompare == /\ pc = "compare" /\ pc' = "select"
                /\ bad' = [l \in Lane |-> again[l] # Ct(l)]
                /\ UNCHANGED << kind, msg, again, out >>
StageSelect == /\ pc = "select" /\ pc' = "done"
               /\ out' = [l \in Lane |-> IF bad[l] THEN << "Z", l, Ct(l) >> ELSE << "K", l >>]
               /\ UNCHANGED << kind, msg, again, bad >>
Next == StageDecrypt \/ StageEncrypt \/ StageCompare \/ StageSelect
Spec == Init /\ [][Next]_vars
Independent == pc = "done" => \A l \in Lane : out[l] = Single(l)
\* only the lane's own kind decides acceptance
Local == pc = "done" => \A l \in Lane : (out[l] = << "K", l >>) <=> kind[l] = "honest"
Emit == pc = "done" => PrintT("BEHAVIOUR " \o ToJson([l \in Lane |-> kind[l]]))
=========================================================================
