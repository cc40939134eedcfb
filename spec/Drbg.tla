----------------------------- MODULE Drbg ------------------------------
(* AES-256-CTR-DRBG (no derivation function) and the AES seed expander.   *)
EXTENDS Fast

(* Generator state: key (32 bytes) and counter block v (16 bytes)         *)
DrbgUpdate(st, data) ==
    LET t == FCtrStream(st.key, Inc(st.v, 16), 16, 48)
        u == IF data = <<>> THEN t ELSE XorB(t, data)
    IN [key |-> Take(u, 32), v |-> Drop(u, 32)]
DrbgZero == [key |-> Zeros(32), v |-> Zeros(16)]
\* pers = <<>> when no personalization string is given
DrbgInit(entropy, pers) == DrbgUpdate(DrbgZero, IF pers = <<>> THEN entropy ELSE XorB(entropy, pers))

\* advance a 16-byte big-endian counter by n
IncBy(v, n) ==
    LET c[i \in 0 .. 16] == \* carry into byte 16-i ; digits of n base 256
            IF i = 0 THEN 0
            ELSE LET d == IF i <= 4 THEN (n \div (256 ^ (i - 1))) % 256 ELSE 0
                 IN (v[17 - i] + d + c[i - 1]) \div 256
    IN [j \in 1 .. 16 |-> LET i == 17 - j
                              d == IF i <= 4 THEN (n \div (256 ^ (i - 1))) % 256 ELSE 0
                          IN (v[j] + d + c[i - 1]) % 256]
\* one request of n bytes: [out, st]
DrbgDraw(st, n) ==
    LET blocks == (n + 15) \div 16
        out == FCtrStream(st.key, Inc(st.v, 16), 16, n)
    IN [out |-> out, st |-> DrbgUpdate([st EXCEPT !.v = IncBy(@, blocks)], <<>>)]

(* Seed expander: the stream AES(seed, diversifier || maxlen || counter)  *)
(* with a 32-bit counter; state = budget left and bytes delivered so far. *)
\* maxlen is given as big-endian bytes (8), since it may exceed TLC's integers
XofTooLong(maxlen8) == \E i \in 1 .. 4 : maxlen8[i] # 0
XofInit(seed, div, maxlen8) ==
    [key |-> seed, ctr |-> div \o Slice(maxlen8, 4, 4) \o Zeros(4), rem |-> Slice(maxlen8, 4, 4), pos |-> 0]
\* comparison and subtraction on 4-byte big-endian numbers
RECURSIVE LeqBE(_, _)
LeqBE(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LeqBE(Tail(a), Tail(b))
SubBE(a, b) ==
    LET w[i \in 0 .. 4] == IF i = 0 THEN 0 ELSE IF a[5 - i] - b[5 - i] - w[i - 1] < 0 THEN 1 ELSE 0
    IN [j \in 1 .. 4 |-> (a[j] - b[j] - w[4 - j] + 512) % 256]
\* bytes pos .. pos+n-1 of the stream
XofBytes(st, n) ==
    LET first == st.pos \div 16
        skip == st.pos % 16
        ctr == LET v == IncBy(st.ctr, first) IN Take(st.ctr, 12) \o Drop(v, 12)
    IN IF n = 0 THEN <<>> ELSE Drop(FCtrStream(st.key, ctr, 4, skip + n), skip)
\* request of len bytes (4-byte big-endian len4 = len); buf: an output buffer was given
XofRefuses(st, len4) == LeqBE(st.rem, len4)
XofDraw(st, n) == [out |-> XofBytes(st, n), st |-> [st EXCEPT !.rem = SubBE(@, NatBE(n, 4)), !.pos = @ + n]]
========================================================================
