---------------------------- MODULE Layout ------------------------------
(* Memory of a caller: the buffers of one life cycle (public key, secret  *)
(* key, ciphertext, the two shared keys) lie in any order, back to back   *)
(* or apart, at any offset, against either end of the accessible memory.  *)
(* A call may write its outputs and nothing else, and read its inputs;    *)
(* cells hold who wrote them last. Every layout is emitted for replay.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Gaps, Offsets
Buf == {"pk", "sk", "ct", "k1", "k2"}
VARIABLES order, gap, off, place, mem, pc
vars == << order, gap, off, place, mem, pc >>
Perms == {s \in [1 .. 5 -> Buf] : Cardinality({s[i] : i \in 1 .. 5}) = 5}
Where(b) == CHOOSE i \in 1 .. 5 : order[i] = b
\* two cells per buffer, gap cells between, one cell on either end
Cell(b, c) == 1 + off + (Where(b) - 1) * (2 + gap) + c
Cells == 0 .. (20 + 5 * 3)
Own(b) == {Cell(b, 1), Cell(b, 2)}
Free == Cells \ UNION {Own(b) : b \in Buf}
Init == /\ order \in Perms /\ gap \in Gaps /\ off \in Offsets /\ place \in {"low", "high"}
        /\ mem = [c \in Cells |-> "caller"] /\ pc = "keygen"
Write(bs, v) == mem' = [c \in Cells |-> IF \E b \in bs : c \in Own(b) THEN v ELSE mem[c]]
KeyGen == pc = "keygen" /\ Write({"pk", "sk"}, "keygen") /\ pc' = "enc"
Enc == pc = "enc" /\ Write({"ct", "k1"}, "enc") /\ pc' = "dec"
Dec == pc = "dec" /\ Write({"k2"}, "dec") /\ pc' = "done"
Next == (KeyGen \/ Enc \/ Dec) /\ UNCHANGED << order, gap, off, place >>
Spec == Init /\ [][Next]_vars
Disjoint == \A a, b \in Buf : a # b => Own(a) \cap Own(b) = {}
\* nothing else is ever written, every output cell is, and inputs keep what their producer wrote
Frame == /\ \A c \in Free : mem[c] = "caller"
         /\ pc # "keygen" => \A c \in Own("pk") \cup Own("sk") : mem[c] = "keygen"
         /\ pc \in {"dec", "done"} => \A c \in Own("ct") \cup Own("k1") : mem[c] = "enc"
         /\ pc = "done" => \A c \in Own("k2") : mem[c] = "dec"
Emit == pc = "done" => PrintT("BEHAVIOUR " \o ToJson([order |-> order, gap |-> gap, off |-> off, place |-> place]))
=========================================================================
