---------------------------- MODULE Conform ----------------------------
(* Conformance of recorded executions: one line of the trace is one call  *)
(* of the real code with its arguments and results. A line is accepted    *)
(* iff it is a step of the specification from the current state; the      *)
(* state is what the code itself must remember or what a user may rely on *)
(* (generator states, expander and cipher contexts, key pairs and         *)
(* encapsulations handed out so far).                                     *)
EXTENDS Saber, Drbg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,      \* next line of the trace
    drbg,   \* generator state of each instance
    xof,    \* seed-expander contexts
    ctx,    \* counter-mode contexts: key, next counter block
    pairs,  \* key pairs handed out: [p, pk, sk] (hex)
    encs,   \* encapsulations handed out: [p, pk, ct, k] (hex)
    names   \* terms of the symbolic model KemSystem and the keys they stand for: [sym, k]
vars == << l, drbg, xof, ctx, pairs, encs, names >>

Bytes(h) == FHex(h)
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* every call: writes stay inside the output buffers, inputs are left alone
Frame(e) == e.canary /\ e.inputs

Init == /\ l = 1
        /\ drbg = << >> /\ xof = << >> /\ ctx = << >>
        /\ pairs = {} /\ encs = {} /\ names = {}

\* TLC evaluates the condition of an IF inside an action like a state predicate, that is, with
\* local definitions computed once
Holds(b) == IF b THEN TRUE ELSE FALSE
Keep == UNCHANGED << drbg, xof, ctx, pairs, encs >>

(*------------------------------ generator ------------------------------*)
DoInit(e) ==
    /\ Frame(e)
    /\ drbg' = Set(drbg, e.i, DrbgInit(Bytes(e.seed), Bytes(e.pers)))
    /\ UNCHANGED << xof, ctx, pairs, encs >>
DoDraw(e) ==
    /\ Frame(e) /\ e.rc = 0
    /\ \E d \in {DrbgDraw(drbg[e.i], e.n)} :
         /\ Holds(FToHex(d.out) = e.out)
         /\ drbg' = Set(drbg, e.i, d.st)
    /\ UNCHANGED << xof, ctx, pairs, encs >>

\* n draws of 32 bytes each: from the script of the trace, or from the instance's generator
DrawStep(acc, x) == LET d == DrbgDraw(acc.st, 32) IN [st |-> d.st, out |-> Append(acc.out, d.out)]
Draws(e, n) ==
    IF e.src = "feed" THEN [st |-> <<>>, out |-> TLCEval([k \in 1 .. Len(e.draws) |-> Bytes(e.draws[k])])]
    ELSE TLCEval(Fold(DrawStep, [st |-> drbg[e.i], out |-> <<>>], UpTo(n)))
DrawsLegal(e, d, n) == Len(d.out) = n /\ \A k \in 1 .. n : Len(d.out[k]) = 32
Drawn(e, d) == drbg' = IF e.src = "feed" THEN drbg ELSE Set(drbg, e.i, d.st)

(*--------------------------------- KEM ---------------------------------*)
\* lanes: 1 for the ordinary implementations, 4 for the batched one
KeyGenLane(p, d, pk, sk) ==
    LET k == KemKeyGen(p, d[1], d[2], d[3])
    IN FToHex(k.pk) = pk /\ FToHex(k.sk) = sk
EncLane(p, r, pk, ct, key) ==
    LET x == KemEnc(p, r, Bytes(pk))
    IN FToHex(x.ct) = ct /\ FToHex(x.k) = key
DoKeyGen(e) ==
    /\ Frame(e) /\ e.rc = 0
    /\ \E d \in {Draws(e, 3 * Len(e.pk))} :
         /\ DrawsLegal(e, d, 3 * Len(e.pk))
         /\ Holds(\A i \in 1 .. Len(e.pk) : KeyGenLane(ParamTable[e.p], SubSeq(d.out, 3 * i - 2, 3 * i), e.pk[i], e.sk[i]))
         /\ Drawn(e, d)
    /\ pairs' = pairs \cup {[p |-> e.p, pk |-> e.pk[i], sk |-> e.sk[i]] : i \in 1 .. Len(e.pk)}
    /\ UNCHANGED << xof, ctx, encs >>
DoEnc(e) ==
    /\ Frame(e) /\ e.rc = 0
    /\ \E d \in {Draws(e, Len(e.pk))} :
         /\ DrawsLegal(e, d, Len(e.pk))
         /\ Holds(\A i \in 1 .. Len(e.pk) : EncLane(ParamTable[e.p], d.out[i], e.pk[i], e.ct[i], e.k[i]))
         /\ Drawn(e, d)
    /\ encs' = encs \cup {[p |-> e.p, pk |-> e.pk[i], ct |-> e.ct[i], k |-> e.k[i]] : i \in 1 .. Len(e.pk)}
    /\ UNCHANGED << xof, ctx, pairs >>
\* abstract view of one decapsulation: the ciphertext was encapsulated to this key pair
HonestKeys(ep, ct, sk) == {c.k : c \in {c2 \in encs : c2.ct = ct /\ c2.p = ep /\ [p |-> ep, pk |-> c2.pk, sk |-> sk] \in pairs}}
DecLane(ep, ct, sk, k) ==
    LET p == ParamTable[ep]
        c == Bytes(ct)
        s == Bytes(sk)
        r == KemDec(p, c, s)
        h == HonestKeys(ep, ct, sk)
    IN /\ FToHex(r.k) = k
       /\ (h # {} /\ r.acc) => k \in h            \* agreement with the encapsulator
       /\ (~ r.acc) => k = FToHex(RejectKey(p, c, s))
       /\ (~ r.acc) => \A x \in encs : x.k # k      \* a rejection key is nobody's shared key
DoDec(e) ==
    /\ Frame(e) /\ e.rc = 0
    /\ Holds(\A i \in 1 .. Len(e.ct) : DecLane(e.p, e.ct[i], e.sk[i], e.k[i]))
    /\ Keep

(* Many decapsulations of variants of honest ciphertexts (one per lane):  *)
(* flips[v] is the set of changes [lane, 0-based position, xor mask] of   *)
(* variant v, k[v][lane] the key it returned.                             *)
FlipsHold(e) ==
    LET p == ParamTable[e.p]
        n == Len(e.ct)
        ct == TLCEval([i \in 1 .. n |-> Bytes(e.ct[i])])
        sk == TLCEval([i \in 1 .. n |-> Bytes(e.sk[i])])
        own == TLCEval([i \in 1 .. n |-> KemDec(p, ct[i], sk[i])])
        KeyOf(c, i) == IF c = ct[i] THEN own[i].k ELSE RejectKey(p, c, sk[i])
    IN /\ \A i \in 1 .. n : own[i].acc
       /\ \A v \in 1 .. Len(e.flips) :
            /\ e.rcs[v] = 0
            /\ \A i \in 1 .. n : FToHex(KeyOf(FFlip(ct[i], e.flips[v], i), i)) = e.k[v][i]
DoFlips(e) == Frame(e) /\ Holds(FlipsHold(e)) /\ Keep

(*------------------------------- hashing -------------------------------*)
HashOf(fn, m, n) ==
    CASE fn = "sha3_256" -> FSha3_256(m)
      [] fn = "sha3_512" -> FSha3_512(m)
      [] fn = "shake128" -> FShake128(m, n)
      [] fn = "shake256" -> FSponge(136, 31, m, n)
      [] fn = "sha256" -> FSha256(m)
      [] fn = "sha512" -> FSha512(m)
DoHash(e) ==
    /\ Frame(e)
    /\ Holds(\A i \in 1 .. Len(e.in) : FToHex(HashOf(e.fn, Bytes(e.in[i]), e.n)) = e.out[i])
    /\ Keep
\* a long message, e.len bytes of a periodic pattern
DoLongHash(e) ==
    /\ Frame(e)
    /\ Holds(FToHex(LET m == Bytes(e.pat) IN
          CASE e.fn = "sha3_256" -> FRepSponge(136, 6, m, e.len, 32)
            [] e.fn = "sha3_512" -> FRepSponge(72, 6, m, e.len, 64)
            [] e.fn = "shake128" -> FRepSponge(168, 31, m, e.len, e.n)
            [] e.fn = "sha256" -> FRepSha256(m, e.len)
            [] e.fn = "sha512" -> FRepSha512(m, e.len)) = e.out)
    /\ Keep

\* customised SHAKE: empty function name, a customisation string of two bytes
DoCShake(e) ==
    /\ Frame(e)
    /\ Holds(LET head == << 1, e.rate, 1, 0, 1, 16 >> \o Bytes(e.cstm)
             IN FToHex(FSponge(e.rate, 4, head \o Zeros(e.rate - 8) \o Bytes(e.in), e.n)) = e.out)
    /\ Keep
\* comparison (zero exactly for equal strings) and conditional move
DoVerify(e) ==
    /\ Frame(e)
    /\ e.rc = IF e.a = e.b THEN 0 ELSE 1
    /\ Keep
\* a program in the board's memory: its stack stays above its static data
DoBoard(e) == e.lowest >= e.end /\ Keep
DoCmov(e) ==
    /\ Frame(e)
    /\ e.out = IF e.b = 1 THEN e.in ELSE e.pre
    /\ Keep

(* One life cycle in a caller's memory laid out as in Layout: after each  *)
(* call, the cells outside its outputs are what they were.                *)
DoCycle(e) ==
    LET p == ParamTable[e.p]
        n == Len(e.pk)
    IN /\ e.rcs = 0
       /\ e.kept                                  \* guards, gaps and inputs after every call
       /\ Holds(\A i \in 1 .. n : KeyGenLane(p, SubSeq([k \in 1 .. 3 * n |-> Bytes(e.draws[k])], 3 * i - 2, 3 * i), e.pk[i], e.sk[i]))
       /\ Holds(\A i \in 1 .. n : EncLane(p, Bytes(e.draws[3 * n + i]), e.pk[i], e.ct[i], e.k[i]))
       /\ e.k2 = e.k
       /\ Keep

(*------------------------------ AES-CTR --------------------------------*)
DoCtr(e) == \* one call: counter block e.ctr, the last e.w bytes count
    /\ Frame(e)
    /\ Holds(FToHex(FCtrStream(Bytes(e.key), Bytes(e.ctr), e.w, e.n)) = e.out)
    /\ Keep
\* block n of the stream that begins with counter block c
CounterAt(c, w, n) == IF w = 16 THEN IncBy(c, n) ELSE Take(c, 16 - w) \o Drop(IncBy(c, n), 16 - w)
\* parts << first block, bytes >> of a long stream
PartsHold(key, c, w, at) == \A j \in 1 .. Len(at) :
    FToHex(FCtrStream(key, CounterAt(c, w, at[j][1]), w, Len(at[j][2]) \div 2)) = at[j][2]
DoCtrParts(e) == Frame(e) /\ Holds(PartsHold(Bytes(e.key), Bytes(e.ctr), e.w, e.at)) /\ Keep
DoCtrInit(e) ==
    /\ e.canary
    /\ ctx' = Set(ctx, e.c, [key |-> Bytes(e.key), ctr |-> Bytes(e.ctr)])
    /\ UNCHANGED << drbg, xof, pairs, encs >>
DoCtrNext(e) == \* e.n whole blocks
    /\ e.canary
    /\ \E st \in {ctx[e.c]} :
         /\ Holds(FToHex(FCtrStream(st.key, st.ctr, 4, 16 * e.n)) = e.out)
         /\ ctx' = Set(ctx, e.c, [st EXCEPT !.ctr = Take(st.ctr, 12) \o Drop(IncBy(st.ctr, e.n), 12)])
    /\ UNCHANGED << drbg, xof, pairs, encs >>
DoCtrNextParts(e) ==
    /\ e.canary
    /\ \E st \in {ctx[e.c]} :
         /\ Holds(PartsHold(st.key, st.ctr, 4, e.at))
         /\ ctx' = Set(ctx, e.c, [st EXCEPT !.ctr = CounterAt(st.ctr, 4, e.n)])
    /\ UNCHANGED << drbg, xof, pairs, encs >>

(*---------------------------- seed expander ----------------------------*)
RngSuccess == 0
RngBadMaxLen == -1
RngBadOutBuf == -2
RngBadReqLen == -3
Untouched(e) == e.out = e.pre   \* nothing was written
DoXofInit(e) ==
    /\ e.canary /\ e.inputs
    /\ \E max \in {Bytes(e.max)} :
         IF XofTooLong(max)
         THEN e.rc = RngBadMaxLen /\ xof' = xof
         ELSE e.rc = RngSuccess /\ xof' = Set(xof, e.c, XofInit(Bytes(e.seed), Bytes(e.div), max))
    /\ UNCHANGED << drbg, ctx, pairs, encs >>
DoXof(e) ==
    /\ e.canary
    /\ \E st \in {xof[e.c]}, len \in {Bytes(e.len)} :     \* len: 8 bytes, big endian
         IF e.nobuf THEN e.rc = RngBadOutBuf /\ xof' = xof
         ELSE IF (\E i \in 1 .. 4 : len[i] # 0) \/ XofRefuses(st, Drop(len, 4))
         THEN e.rc = RngBadReqLen /\ Untouched(e) /\ xof' = xof
         ELSE \E d \in {XofDraw(st, e.n)} :
                e.rc = RngSuccess /\ Holds(FToHex(d.out) = e.out) /\ xof' = Set(xof, e.c, d.st)
    /\ UNCHANGED << drbg, ctx, pairs, encs >>
\* a long request that is served, of which parts << first byte, bytes >> are known
DoXofParts(e) ==
    /\ e.canary
    /\ \E st \in {xof[e.c]} :
         /\ ~ XofRefuses(st, NatBE(e.n, 4)) /\ e.rc = RngSuccess
         /\ Holds(\A j \in 1 .. Len(e.at) : FToHex(XofBytes([st EXCEPT !.pos = @ + e.at[j][1]], Len(e.at[j][2]) \div 2)) = e.at[j][2])
         /\ xof' = Set(xof, e.c, [st EXCEPT !.rem = SubBE(@, NatBE(e.n, 4)), !.pos = @ + e.n])
    /\ UNCHANGED << drbg, ctx, pairs, encs >>

(*----------------------------- arithmetic ------------------------------*)
\* polynomials: 512-byte strings of 16-bit little-endian coefficients
Words(h) == FUnpack(16, Bytes(h))
Polys(h) == TLCEval([i \in 1 .. (Len(h) \div 1024) |-> Words(SubSeq(h, 1024 * (i - 1) + 1, 1024 * i))])
Red(a, q) == TLCEval([i \in 1 .. Len(a) |-> a[i] % q])
RedV(v, q) == TLCEval([i \in 1 .. Len(v) |-> Red(v[i], q)])
Rows(m, n) == TLCEval([i \in 1 .. n |-> [j \in 1 .. n |-> m[(i - 1) * n + j]]])
MulHolds(e) ==
    LET p == ParamTable[e.p]
        q == Pow2[e.w]          \* modulus in use
        a == RedV(Polys(e.a), q)
        b == RedV(Polys(e.b), q)
        r == RedV(Polys(e.out), q)
    IN CASE e.kind = "poly" -> r[1] = FPolyMul(a[1], b[1], q)
         [] e.kind = "acc" -> r[1] = PolyAdd(FPolyMul(a[1], b[1], q), RedV(Polys(e.c), q)[1], q)
         [] e.kind = "inner" -> r[1] = FInner(a, b, q)
         [] e.kind = "matvec" -> r = FMatVec(Rows(a, p.l), b, q)
         [] e.kind = "matvecT" -> r = FMatVec(Transpose(Rows(a, p.l)), b, q)
\* products of 64 coefficients modulo y^64 + 1 and 2^16: the second operand in two halves, to stay within TLC's integers
Mul64Holds(e) ==
    LET a == Words(e.a)
        b == Words(e.b)
        n == Len(a)
        At(k, i, x, y) == IF i <= k THEN x[i + 1] * y[k - i + 1] ELSE 0 - x[i + 1] * y[n + k - i + 1]
        lo == TLCEval([i \in 1 .. n |-> b[i] % 256])
        hi == TLCEval([i \in 1 .. n |-> b[i] \div 256])
        al == TLCEval([i \in 1 .. n |-> a[i] % 256])
        RECURSIVE Sum(_, _, _, _)
        Sum(k, i, x, y) == IF i = n THEN 0 ELSE At(k, i, x, y) + Sum(k, i + 1, x, y)
    IN Words(e.out) = TLCEval([k \in 1 .. n |-> (Sum(k - 1, 0, a, lo) + 256 * (Sum(k - 1, 0, al, hi) % 256)) % 65536])
DoMul64(e) == Frame(e) /\ Holds(Mul64Holds(e)) /\ Keep
(*-------------------- widening of narrow instructions ------------------*)
\* e.before, e.after: per function, the instructions << text without width suffix, address, width, can be widened >>
WidenHolds(e) ==
    /\ Len(e.before) = Len(e.after) /\ Len(e.before) > 0
    /\ \A f \in 1 .. Len(e.before) :
         LET x == e.before[f]
             y == e.after[f]
         IN /\ Len(x) = Len(y)
            /\ \A i \in 1 .. Len(x) :
                 /\ x[i][1] = y[i][1]                                   \* the same program
                 /\ y[i][3] = x[i][3] \/ (y[i][3] = 4 /\ x[i][4] = 1)
                 \* a wide instruction after one that can be widened is aligned
                 /\ (i > 1 /\ x[i][3] = 4 /\ x[i - 1][3] = 2 /\ x[i - 1][4] = 1) => y[i][2] % 4 = 0
    /\ e.same
DoWiden(e) == Holds(WidenHolds(e)) /\ Keep
DoMul(e) == Frame(e) /\ Holds(MulHolds(e)) /\ Keep
(*---------------------------- serialization ----------------------------*)
PackHolds(e) ==
    LET a == RedV(Polys(e.a), Pow2[e.w])
        r == PackVec(e.w, a)
    IN /\ FToHex(r) = e.out
       /\ UnpackVec(e.w, Len(a), r) = a
DoPack(e) == Frame(e) /\ Holds(PackHolds(e)) /\ Keep
UnpackHolds(e) ==
    LET r == Polys(e.out)
        m == RedV(r, Pow2[e.w])
    IN /\ m = UnpackVec(e.w, Len(r), Bytes(e.in))
       /\ (e.exact => m = r)
       /\ ("signed" \in DOMAIN e => LET p == ParamTable[e.p] IN RedV(r, Q(p)) = [i \in 1 .. Len(r) |-> [k \in 1 .. 256 |-> SkValue(p, m[i][k])]])
       /\ FToHex(PackVec(e.w, m)) = e.in
DoUnpack(e) == Frame(e) /\ Holds(UnpackHolds(e)) /\ Keep
\* comparison without storing the packed value: zero iff it equals the given bytes
DoCmp(e) ==
    /\ Frame(e)
    /\ Holds((e.rc = 0) = (FToHex(PackVec(e.w, RedV(Polys(e.a), Pow2[e.w]))) = e.in))
    /\ Keep
(*------------------------------- sampling ------------------------------*)
DoCbd(e) ==
    /\ Frame(e)
    /\ Holds(LET p == ParamTable[e.p] IN Red(Words(e.out), Q(p)) = SamplePoly(p, Bytes(e.in)))
    /\ Keep
DoGenSecret(e) ==
    /\ Frame(e)
    /\ Holds(LET p == ParamTable[e.p] IN RedV(Polys(e.out), Q(p)) = GenSecret(p, Bytes(e.in)))
    /\ Keep
DoGenMatrix(e) ==
    /\ Frame(e)
    /\ Holds(LET p == ParamTable[e.p] IN Rows(RedV(Polys(e.out), Q(p)), p.l) = GenMatrix(p, Bytes(e.in)))
    /\ Keep
\* the matrix polynomial by polynomial, as in Stream: number 0 starts a run, the others continue it
DoStream(e) ==
    /\ Frame(e)
    /\ e.n # 0 => e.i \in DOMAIN ctx /\ ctx[e.i].n = e.n - 1
    /\ \E sd \in {IF e.n = 0 THEN e.in ELSE ctx[e.i].seed} :
         /\ Holds(LET p == ParamTable[e.p]
                      k == PolyQBytes(p)
                  IN Red(Words(e.out), Q(p)) = FUnpack(p.eq, Slice(Prf(p, Bytes(sd), k * (e.n + 1)), k * e.n, k)))
         /\ ctx' = Set(ctx, e.i, [seed |-> sd, n |-> e.n])
    /\ UNCHANGED << drbg, xof, pairs, encs >>
(*--------------------------- public-key part ---------------------------*)
DoPkeEnc(e) ==
    /\ Frame(e)
    /\ Holds(FToHex(PkeEnc(ParamTable[e.p], Bytes(e.m), Bytes(e.coins), Bytes(e.pk))) = e.ct)
    /\ Keep
DoPkeDec(e) ==
    /\ Frame(e)
    /\ Holds(FToHex(PkeDec(ParamTable[e.p], Bytes(e.sk), Bytes(e.ct))) = e.m)
    /\ Keep
DoPkeCmp(e) == \* re-encryption compared in place
    /\ Frame(e)
    /\ Holds((e.rc = 0) = (FToHex(PkeEnc(ParamTable[e.p], Bytes(e.m), Bytes(e.coins), Bytes(e.pk))) = e.ct))
    /\ Keep
(*------------------------------ repetition -----------------------------*)
\* a fresh process: its generator starts unseeded
DoReboot(e) ==
    /\ drbg' = [x \in DOMAIN drbg \ {e.i} |-> drbg[x]]
    /\ UNCHANGED << xof, ctx, pairs, encs >>

(*------------------------- symbolic behaviours -------------------------*)
\* equal terms stand for equal keys, different terms for different ones (within one parameter set)
Named(e) ==
    IF "sym" \in DOMAIN e
    THEN LET me == [g |-> e.g, sym |-> e.sym, k |-> e.k]
         IN /\ \A n \in names : n.g = e.g => ((n.sym = e.sym) <=> (n.k = e.k))
            /\ names' = names \cup {me}
    ELSE names' = names

(*--------------------------- bulk comparisons --------------------------*)
\* many round trips: keys of encapsulation and decapsulation, return codes
DoAgree(e) ==
    /\ e.rcs = 0
    /\ \A j \in 1 .. Len(e.enc) : e.enc[j] = e.dec[j]
    /\ UNCHANGED << drbg, xof, ctx, pairs, encs >>
\* results of one call on several implementations, runs or schedules: all equal (vals[j][1] = vals[j][n])
DoSame(e) ==
    /\ "canary" \in DOMAIN e => Frame(e)
    /\ "rcs" \in DOMAIN e => e.rcs = 0
    /\ \A j \in 1 .. Len(e.vals) : \A n \in 2 .. Len(e.vals[j]) : e.vals[j][n] = e.vals[j][1]
    /\ UNCHANGED << drbg, xof, ctx, pairs, encs >>
\* results that must be pairwise different
DoDistinct(e) ==
    /\ \A j, n \in 1 .. Len(e.vals) : j < n => e.vals[j] # e.vals[n]
    /\ UNCHANGED << drbg, xof, ctx, pairs, encs >>

(*------------------------------- threads -------------------------------*)
\* calls in several threads: whatever the schedule, a job's key is the one it gave when run alone
\* (an earlier, judged event named it)
DoThreads(e) ==
    /\ \A j \in 1 .. Len(e.res) : [g |-> e.g, sym |-> e.res[j].job, k |-> e.res[j].k] \in names
    /\ UNCHANGED << drbg, xof, ctx, pairs, encs >>

StepOf(e) ==
    CASE e.op = "init" -> DoInit(e)
      [] e.op = "draw" -> DoDraw(e)
      [] e.op = "keygen" -> DoKeyGen(e)
      [] e.op = "enc" -> DoEnc(e)
      [] e.op = "dec" -> DoDec(e)
      [] e.op = "flips" -> DoFlips(e)
      [] e.op = "cycle" -> DoCycle(e)
      [] e.op = "hash" -> DoHash(e)
      [] e.op = "longhash" -> DoLongHash(e)
      [] e.op = "ctr" -> DoCtr(e)
      [] e.op = "ctrparts" -> DoCtrParts(e)
      [] e.op = "ctrnextparts" -> DoCtrNextParts(e)
      [] e.op = "xofparts" -> DoXofParts(e)
      [] e.op = "ctrinit" -> DoCtrInit(e)
      [] e.op = "ctrnext" -> DoCtrNext(e)
      [] e.op = "xofinit" -> DoXofInit(e)
      [] e.op = "xof" -> DoXof(e)
      [] e.op = "mul" -> DoMul(e)
      [] e.op = "mul64" -> DoMul64(e)
      [] e.op = "widen" -> DoWiden(e)
      [] e.op = "pack" -> DoPack(e)
      [] e.op = "unpack" -> DoUnpack(e)
      [] e.op = "cbd" -> DoCbd(e)
      [] e.op = "gensecret" -> DoGenSecret(e)
      [] e.op = "genmatrix" -> DoGenMatrix(e)
      [] e.op = "pkeenc" -> DoPkeEnc(e)
      [] e.op = "cmp" -> DoCmp(e)
      [] e.op = "stream" -> DoStream(e)
      [] e.op = "cshake" -> DoCShake(e)
      [] e.op = "verify" -> DoVerify(e)
      [] e.op = "cmov" -> DoCmov(e)
      [] e.op = "board" -> DoBoard(e)
      [] e.op = "pkecmp" -> DoPkeCmp(e)
      [] e.op = "pkedec" -> DoPkeDec(e)
      [] e.op = "reboot" -> DoReboot(e)
      [] e.op = "agree" -> DoAgree(e)
      [] e.op = "threads" -> DoThreads(e)
      [] e.op = "same" -> DoSame(e)
      [] e.op = "distinct" -> DoDistinct(e)
      [] OTHER -> FALSE     \* in particular a crash

Next == l <= Len(Trace) /\ StepOf(Trace[l]) /\ Named(Trace[l]) /\ l' = l + 1
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
========================================================================
