---------------------------- MODULE FourWay -----------------------------
(* K sponge states side by side in one memory: lane l of instance k is    *)
(* the word at l*K + k, so that one vector instruction handles a lane of  *)
(* all instances. Calls add (xor), overwrite, clear or extract any run of *)
(* bytes of one instance - cut by the implementation into a partial first *)
(* lane, whole lanes and a partial last lane - or the first lanes of all  *)
(* instances at once from data laid out with a distance of `dist` lanes,  *)
(* permute, or absorb whole blocks in a loop. Whatever the history, the   *)
(* memory is K independent states, each what it would be alone.           *)
(*                                                                        *)
(* Symbolically: a byte is the set of the input bytes xored into it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Lanes, W,      \* instances, lanes of a state, bytes of a lane
          Dists,            \* distances of the data of the instances
          MaxCalls,
          Bug               \* "none", or the error of a mutant
VARIABLES mem,     \* the cells, as the implementation uses them
          st,      \* the K states
          out, want,        \* last answer, and what it should be
          call,    \* the call being chosen
          hist
vars == << mem, st, out, want, call, hist >>
Size == Lanes * W
Inst == 0 .. K - 1
Xor(x, y) == (x \ y) \cup (y \ x)
Min(x, y) == IF x < y THEN x ELSE y
n == Len(hist)

\* the cell of byte b of instance k
Cell(k, b) == ((b \div W) * K + k) * W + (b % W)
\* the cells a call on bytes off .. off+len-1 of instance k visits, in the order of its data
Visit(k, off, len) ==
    LET in0 == off % W
        lane0 == off \div W
        head == IF len > 0 /\ in0 # 0 THEN (IF Bug = "uncapped" THEN W - in0 ELSE Min(W - in0, len)) ELSE 0
        lane1 == lane0 + (IF head > 0 /\ Bug # "stuck" THEN 1 ELSE 0)
        total == IF head > len THEN head ELSE len
    IN [j \in 1 .. total |->
          IF j <= head THEN (lane0 * K + k) * W + in0 + j - 1
          ELSE LET i == j - head - 1 IN ((lane1 + i \div W) * (IF Bug = "packed" THEN 1 ELSE K) + k) * W + (i % W)]
\* cells of the last, partial lane that a call has no data for
Rest(k, off, len) ==
    IF Bug # "whole" \/ len = 0 \/ (off + len) % W = 0 \/ (off % W # 0 /\ off \div W = (off + len) \div W) THEN {}
    ELSE {Cell(k, b) : b \in off + len .. ((off + len) \div W + 1) * W - 1}
Token(j) == {<< n, j >>}
IndexOf(v, c) == CHOOSE j \in 1 .. Len(v) : v[j] = c
Range(v) == {v[j] : j \in 1 .. Len(v)}

Init == /\ mem = TLCEval([c \in 0 .. K * Size - 1 |-> {}]) /\ st = TLCEval([k \in Inst |-> [b \in 0 .. Size - 1 |-> {}]])
        /\ out = << >> /\ want = << >> /\ call = << >> /\ hist = << >>

ByteCalls == {"add", "over", "get", "getadd"}
LaneCalls == {"addall", "overall", "getall", "getaddall"}
Kinds == ByteCalls \cup LaneCalls \cup {"init", "byte", "clear", "perm12", "perm24", "loop12", "loop24"}
\* a call is chosen field by field
Choose ==
    /\ n < MaxCalls
    /\ UNCHANGED << mem, st, out, want, hist >>
    /\ \/ call = << >> /\ \E f \in Kinds : call' = << f >>
       \/ Len(call) = 1 /\ call[1] \in ByteCalls \cup {"byte", "clear"} /\ \E k \in Inst : call' = Append(call, k)
       \/ Len(call) = 2 /\ call[1] \in ByteCalls \cup {"byte", "clear"}
            /\ \E o \in 0 .. (IF call[1] = "byte" THEN Size - 1 ELSE Size) : call' = Append(call, o)
       \/ Len(call) = 3 /\ call[1] \in ByteCalls /\ \E len \in 0 .. Size - call[3] : call' = Append(call, len)
       \/ Len(call) = 1 /\ call[1] \in LaneCalls \cup {"loop12", "loop24"} /\ \E c \in 0 .. Lanes : call' = Append(call, c)
       \/ Len(call) = 2 /\ call[1] \in LaneCalls \cup {"loop12", "loop24"}
            \* extracted data do not overlap
            /\ \E d \in Dists : (call[1] \in {"getall", "getaddall"} => d >= call[2]) /\ call' = Append(call, d)
       \* a loop: distance of the blocks of one instance (at most the extent of a round), bytes of data
       \/ Len(call) = 3 /\ call[1] \in {"loop12", "loop24"}
            /\ \E s \in 1 .. (K - 1) * call[3] + call[2] : call' = Append(call, s)
       \/ Len(call) = 4 /\ call[1] \in {"loop12", "loop24"}
            /\ \E s \in 0 .. 2 : \E x \in {-1, 0, 1} :
                 LET len == ((K - 1) * call[3] + call[2] + s * call[4]) * W + x IN len >= 0 /\ call' = Append(call, len)
Ready == CASE call = << >> -> FALSE
           [] call[1] \in ByteCalls -> Len(call) = 4
           [] call[1] \in LaneCalls \cup {"byte", "clear"} -> Len(call) = 3
           [] call[1] \in {"loop12", "loop24"} -> Len(call) = 5
           [] OTHER -> TRUE

\* data of all instances: byte i of instance k, at distance d
At(k, i, d) == k * d * W + i + 1
\* rounds of a loop: as it counts down, and in closed form
RECURSIVE Down(_, _, _)
Down(len, need, step) == IF len < need THEN 0 ELSE 1 + Down(len - step, need, step)
LoopNeed == ((K - 1) * call[3] + call[2]) * W
Blocks(len, need, step) == IF len < need THEN 0 ELSE (len - need) \div step + 1
\* blocks of the loop of each instance, absorbed one after the other (a permutation makes everything new)
Mixed(r, k, b) == {<< n, r, k, b >>}

Do == /\ Ready
      /\ LET f == call[1] IN
         CASE f = "init" -> /\ mem' = [c \in DOMAIN mem |-> {}]
                            /\ st' = [k \in Inst |-> [b \in 0 .. Size - 1 |-> {}]]
                            /\ out' = << >> /\ want' = << >>
           [] f \in ByteCalls \cup {"byte", "clear"} ->
                LET k == call[2]
                    off == IF f = "clear" THEN 0 ELSE call[3]
                    len == CASE f = "byte" -> 1 [] f = "clear" -> call[3] [] OTHER -> call[4]
                    new(old, j) == CASE f \in {"add", "byte"} -> Xor(old, Token(j)) [] f = "over" -> Token(j) [] f = "clear" -> {} [] OTHER -> old
                IN \E v \in {IF f = "byte" THEN << Cell(k, off) >> ELSE TLCEval(Visit(k, off, len))} :
                   \E cells \in {Range(v)}, rest \in {IF f = "over" THEN Rest(k, off, len) ELSE {}} :
                   /\ mem' = TLCEval([c \in cells \cup rest |-> IF c \in cells THEN new(mem[c], IndexOf(v, c)) ELSE {}] @@ mem)
                   /\ st' = TLCEval([st EXCEPT ![k] = [b \in 0 .. Size - 1 |-> IF b >= off /\ b < off + len THEN new(@[b], b - off + 1) ELSE @[b]]])
                   /\ out' = TLCEval(CASE f = "get" -> [j \in 1 .. Len(v) |-> mem[v[j]]]
                               [] f = "getadd" -> [j \in 1 .. Len(v) |-> Xor(mem[v[j]], Token(j))]
                               [] OTHER -> << >>)
                   /\ want' = TLCEval(CASE f = "get" -> [j \in 1 .. len |-> st[k][off + j - 1]]
                                [] f = "getadd" -> [j \in 1 .. len |-> Xor(st[k][off + j - 1], Token(j))]
                                [] OTHER -> << >>)
           [] f \in LaneCalls ->
                LET c == call[2]
                    d == call[3]
                    \* lane i of instance k as the implementation finds it in its data
                    src(k, i) == At(IF Bug = "crossed" /\ k = 1 THEN 2 % K ELSE k, i, d)
                    new(old, j) == CASE f = "addall" -> Xor(old, Token(j)) [] f = "overall" -> Token(j) [] OTHER -> old
                    ans(val(_, _), pos(_, _)) == [k \in Inst |-> [i \in 0 .. c * W - 1 |->
                             IF f = "getaddall" THEN Xor(val(k, i), Token(pos(k, i))) ELSE val(k, i)]]
                IN /\ mem' = TLCEval([x \in DOMAIN mem |-> LET l == x \div (K * W)
                                                               k == (x \div W) % K
                                                           IN IF l < c THEN new(mem[x], src(k, l * W + (x % W))) ELSE mem[x]])
                   /\ st' = TLCEval([k \in Inst |-> [b \in 0 .. Size - 1 |-> IF b < c * W THEN new(st[k][b], At(k, b, d)) ELSE st[k][b]]])
                   /\ out' = IF f \in {"getall", "getaddall"} THEN ans(LAMBDA k, i : mem[Cell(k, i)], src) ELSE << >>
                   /\ want' = IF f \in {"getall", "getaddall"} THEN ans(LAMBDA k, i : st[k][i], LAMBDA k, i : At(k, i, d)) ELSE << >>
           [] OTHER ->
                LET r == IF f \in {"perm12", "loop12"} THEN 12 ELSE 24
                    loop == f \in {"loop12", "loop24"}
                    need == IF Bug = "short" THEN (call[2] + call[3]) * W ELSE LoopNeed
                    rounds == IF loop THEN Down(call[5], need, call[4] * W) ELSE 1
                    right == IF loop THEN Blocks(call[5], LoopNeed, call[4] * W) ELSE 1
                IN /\ mem' = TLCEval([x \in DOMAIN mem |-> IF rounds = 0 THEN mem[x]
                                        ELSE Mixed(r, (x \div W) % K, (x \div (K * W)) * W + (x % W))])
                   /\ st' = TLCEval([k \in Inst |-> [b \in 0 .. Size - 1 |-> IF right = 0 THEN st[k][b] ELSE Mixed(r, k, b)]])
                   /\ out' = << rounds >> /\ want' = << right >>
      /\ hist' = Append(hist, call)
      /\ call' = << >>
Next == Choose \/ Do
Spec == Init /\ [][Next]_vars

Independent == call = << >> => \A k \in Inst : \A b \in 0 .. Size - 1 : mem[Cell(k, b)] = st[k][b]
Answers == call = << >> => out = want
\* the data of a loop suffice for the blocks it takes
Within == (call # << >> /\ call[1] \in {"loop12", "loop24"} /\ Len(call) = 5) =>
    LET b == Blocks(call[5], LoopNeed, call[4] * W) IN b > 0 => ((b - 1) * call[4]) * W + LoopNeed <= call[5]
View == << mem, st, out, want, call, n >>
Emit == n = MaxCalls => PrintT("BEHAVIOUR " \o ToJson(hist))
========================================================================
