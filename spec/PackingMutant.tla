------------------------- MODULE PackingMutant --------------------------
(* A planted error: the packing takes bit 2 of the sixth coefficient for  *)
(* its bit 0 (as the Cortex-M0 code did).                                 *)
EXTENDS Packing
Bad(c) == [k \in 1 .. G |-> IF k = 6 THEN (2 * (c[k] \div 2)) + ((c[k] \div 4) % 2) ELSE c[k]]
BadCanonical == Pack(w, Bad(AsCoefs)) = AsBytes
=========================================================================
