--------------------------- MODULE KemSystem ---------------------------
(* The KEM as a distributed system, symbolically: several instances (one  *)
(* process each, possibly different implementations of the same parameter *)
(* set), each with its own deterministic generator, hand keys and         *)
(* ciphertexts to each other through an adversary who changes, forges and *)
(* redirects ciphertexts. Hashing is free term construction, encryption   *)
(* is as the Fujisaki-Okamoto transform uses it.                          *)
(* Emitted behaviours are replayed into the real implementations; equal   *)
(* terms must become equal byte strings and different terms different     *)
(* ones (operator Named of Conform).                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Inst, Seeds, MaxOps, MaxKeys, MaxCts

VARIABLES gen,   \* generator of each instance: seed and number of draws so far, or unseeded
          keys,  \* key pairs in circulation; a key pair is named by its first draw
          cts,   \* ciphertexts in circulation
          log,   \* results handed to users: encapsulations and decapsulations
          hist   \* the behaviour so far, for replay
vars == << gen, keys, cts, log, hist >>
Unseeded == [s |-> "none", n |-> 0]
None == << "none", 0 >>
Chosen == << "chosen", 0 >>     \* picked by the adversary

(* Terms *)
\* canonical text of a term (records print in no fixed field order)
CtText(ct) == << ct.key, ct.m, ct.coins, ct.delta >>
Text(t) == ToString(IF t[1] = "K" THEN << "K", t[2], t[3], CtText(t[4]) >> ELSE << "Z", t[2], CtText(t[3]) >>)
Coins(m, k) == << "coins", m, k >>
CtOf(k, m, c) == [key |-> k, m |-> m, coins |-> c, delta |-> "none"]
PkeDecT(k, ct) == IF ct.key = k /\ ct.delta \in {"none", "small"} THEN ct.m ELSE << "garbled", k, ct >>
\* encapsulation under message m
EncT(k, m) == LET ct == CtOf(k, m, Coins(m, k)) IN [ct |-> ct, key |-> << "K", m, k, ct >>]
\* decapsulation: decrypt, re-encrypt, compare, select
DecT(k, ct) == LET m == PkeDecT(k, ct)
                   again == CtOf(k, m, Coins(m, k))
               IN IF again = ct THEN << "K", m, k, ct >> ELSE << "Z", k, ct >>

Init == /\ gen = [i \in Inst |-> Unseeded]
        /\ keys = << >> /\ cts = << >> /\ log = {} /\ hist = << >>

Ops == Len(hist)
Draw(i) == << gen[i].s, gen[i].n >>
Seeded(i) == gen[i] # Unseeded
Has(s, x) == \E j \in 1 .. Len(s) : s[j] = x
Index(s, x) == CHOOSE j \in 1 .. Len(s) : s[j] = x
AddTo(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)

DoSeed(i, s) ==
    /\ gen' = [gen EXCEPT ![i] = [s |-> s, n |-> 0]]
    /\ hist' = Append(hist, [op |-> "init", i |-> i, s |-> s])
    /\ UNCHANGED << keys, cts, log >>
\* the process dies and comes back without generator state
DoReboot(i) ==
    /\ Seeded(i)
    /\ gen' = [gen EXCEPT ![i] = Unseeded]
    /\ hist' = Append(hist, [op |-> "reboot", i |-> i])
    /\ UNCHANGED << keys, cts, log >>
DoKeyGen(i) ==
    /\ Seeded(i)
    /\ Has(keys, Draw(i)) \/ Len(keys) < MaxKeys
    /\ keys' = AddTo(keys, Draw(i))
    /\ gen' = [gen EXCEPT ![i].n = @ + 3]
    /\ hist' = Append(hist, [op |-> "keygen", i |-> i, key |-> Index(keys', Draw(i))])
    /\ UNCHANGED << cts, log >>
DoEnc(i, j) ==
    LET r == EncT(keys[j], << "m", Draw(i) >>)
    IN /\ Seeded(i)
       /\ Has(cts, r.ct) \/ Len(cts) < MaxCts
       /\ cts' = AddTo(cts, r.ct)
       /\ gen' = [gen EXCEPT ![i].n = @ + 1]
       /\ log' = log \cup {[op |-> "enc", k |-> keys[j], ct |-> r.ct, key |-> r.key]}
       /\ hist' = Append(hist, [op |-> "enc", i |-> i, key |-> j, ct |-> Index(cts', r.ct), sym |-> Text(r.key)])
       /\ UNCHANGED keys
DoDec(i, c, j) ==
    LET r == DecT(keys[j], cts[c])
    IN /\ log' = log \cup {[op |-> "dec", k |-> keys[j], ct |-> cts[c], key |-> r]}
       /\ hist' = Append(hist, [op |-> "dec", i |-> i, key |-> j, ct |-> c, sym |-> Text(r), acc |-> r[1] = "K"])
       /\ UNCHANGED << gen, keys, cts >>
\* the adversary: a change that leaves the decrypted message alone, one that destroys it,
\* an encryption under coins of its own, arbitrary bytes
DoTamper(c, d) ==
    LET x == [cts[c] EXCEPT !.delta = d]
    IN /\ cts[c].delta = "none" /\ cts[c].key # None
       /\ ~ Has(cts, x) /\ Len(cts) < MaxCts
       /\ cts' = Append(cts, x)
       /\ hist' = Append(hist, [op |-> "tamper", from |-> c, how |-> d, ct |-> Len(cts')])
       /\ UNCHANGED << gen, keys, log >>
DoForge(j) ==
    LET x == CtOf(keys[j], << "m", Chosen >>, Coins(<< "m", None >>, Chosen))
    IN /\ ~ Has(cts, x) /\ Len(cts) < MaxCts
       /\ cts' = Append(cts, x)
       /\ hist' = Append(hist, [op |-> "forge", key |-> j, ct |-> Len(cts')])
       /\ UNCHANGED << gen, keys, log >>
DoJunk ==
    LET x == CtOf(None, << "m", None >>, Coins(<< "m", None >>, None))
    IN /\ ~ Has(cts, x) /\ Len(cts) < MaxCts
       /\ cts' = Append(cts, x)
       /\ hist' = Append(hist, [op |-> "junk", ct |-> Len(cts')])
       /\ UNCHANGED << gen, keys, log >>
Next ==
    /\ Ops < MaxOps
    /\ \/ \E i \in Inst : \/ \E s \in Seeds : DoSeed(i, s)
                          \/ DoReboot(i)
                          \/ DoKeyGen(i)
                          \/ \E j \in 1 .. Len(keys) : DoEnc(i, j)
                          \/ \E c \in 1 .. Len(cts), j \in 1 .. Len(keys) : DoDec(i, c, j)
       \/ \E c \in 1 .. Len(cts), d \in {"small", "large"} : DoTamper(c, d)
       \/ \E j \in 1 .. Len(keys) : DoForge(j)
       \/ DoJunk
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ----------------------------*)
Encs == {x \in log : x.op = "enc"}
Decs == {x \in log : x.op = "dec"}
\* S01: the matching secret key recovers the encapsulated key
Agreement == \A d \in Decs, e \in Encs : (d.ct = e.ct /\ d.k = e.k) => d.key = e.key
\* S02: everything else gets the rejection key of exactly these bytes, which no encapsulation ever returned
Rejection == \A d \in Decs :
    (~ \E e \in Encs : d.ct = e.ct /\ d.k = e.k)
        => d.key = << "Z", d.k, d.ct >> /\ \A e \in Encs : e.key # d.key
\* different ciphertexts or keys never share a shared key
Binding == \A x, y \in log : x.key = y.key => x.ct = y.ct /\ x.k = y.k
\* S17: a function of the arguments, whatever happened before
Functional == \A x, y \in log : (x.op = y.op /\ x.ct = y.ct /\ x.k = y.k) => x.key = y.key
\* S06: the same draws give the same key pair and ciphertext on every instance
Inv == Agreement /\ Rejection /\ Binding /\ Functional
\* behaviours for replay
Emit == (Ops = MaxOps /\ Decs # {}) => PrintT("BEHAVIOUR " \o ToJson(hist))
\* exhaustive exploration identifies states up to the history
View == << gen, keys, cts, log, Ops >>
=======================================================================
