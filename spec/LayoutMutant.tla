-------------------------- MODULE LayoutMutant --------------------------
(* A planted error: encapsulation writes one cell behind the ciphertext.  *)
EXTENDS Layout
BadEnc == /\ pc = "enc" /\ pc' = "dec"
          /\ mem' = [c \in Cells |-> IF c \in Own("ct") \cup Own("k1") \cup {Cell("ct", 3)} THEN "enc" ELSE mem[c]]
=========================================================================
