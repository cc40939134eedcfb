-------------------------- MODULE LanesMutant ---------------------------
(* A planted error: the selection reads its neighbour's verdict.          *)
EXTENDS Lanes
BadSelect == /\ pc = "select" /\ pc' = "done"
             /\ out' = [l \in Lane |-> IF bad[IF l = 3 THEN 2 ELSE l] THEN << "Z", l, Ct(l) >> ELSE << "K", l >>]
             /\ UNCHANGED << kind, msg, again, bad >>
=========================================================================
