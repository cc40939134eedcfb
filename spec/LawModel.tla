---------------------------- MODULE LawModel ----------------------------
(* Histories of law computations on three registers, as a parameter search *)
(* performs them, and the double-and-add machine of the repeated sum       *)
(* stepped next to the plain definition. Every history is emitted.         *)
EXTENDS Laws, Json
CONSTANTS Ks, MaxIter, MaxOps, Mods,
          Concrete    \* FALSE: keep only denominator and size of a law (to generate histories fast)
Regs == {"a", "b", "c"}
VARIABLES reg, hist, mach
vars == << reg, hist, mach >>
None == [q |-> 0]
Size(L) == IF Concrete THEN Cardinality(Supp(L)) ELSE L.n
Lg(L) == L.e        \* denominators here are powers of two
Small(e, n) == e <= 24 /\ n <= 40
Unit(L) == Mass(L) * 1 = L.q * 2 ^ L.e
Init == reg = [r \in Regs |-> None] /\ hist = << >> /\ mach = [on |-> FALSE]
Set(r, L, e, n, ev) == reg' = [reg EXCEPT ![r] = IF Concrete THEN L ELSE [q |-> 1, e |-> e, n |-> n]] /\ hist' = Append(hist, ev) /\ UNCHANGED mach
Have(r) == reg[r] # None
Two == << [q |-> 1, e |-> 1, w |-> [x \in {-1, 0} |-> 1]], [q |-> 1, e |-> 2, w |-> (-3 :> 1 @@ 0 :> 1 @@ 2 :> 2)],
          [q |-> 1, e |-> 2, w |-> (-2 :> 1 @@ 1 :> 3)], [q |-> 1, e |-> 3, w |-> (0 :> 5 @@ 1 :> 2 @@ -4 :> 1)] >>
Binom(r) == \E k \in Ks : Set(r, CentredBinomial(k), 2 * k, 2 * k + 1, [op |-> "binom", r |-> r, k |-> k])
Given(r) == \E i \in 1 .. Len(Two) : Set(r, Two[i], Two[i].e, Cardinality(Supp(Two[i])), [op |-> "given", r |-> r, i |-> i])
ErrorLaw(q, p, a) == LET h == q \div (2 * p)
    IN [q |-> 1, e |-> a, w |-> [d \in (0 - h) .. h |-> IF Abs(d) = h THEN p \div 2 ELSE p]]
ErrLaw(r) == \E m \in Mods :
    LET q == 2 ^ (m \div 10)
        p == 2 ^ (m % 10)
    IN Set(r, ErrorLaw(q, p, m \div 10), m \div 10, q \div p + 1, [op |-> "errlaw", r |-> r, q |-> q, p |-> p])
Conv(r, s, t) == /\ Have(s) /\ Have(t) /\ Small(Lg(reg[s]) + Lg(reg[t]), Size(reg[s]) + Size(reg[t]))
                 /\ Set(r, Convolution(reg[s], reg[t]), Lg(reg[s]) + Lg(reg[t]), Size(reg[s]) + Size(reg[t]), [op |-> "conv", r |-> r, s |-> s, t |-> t])
Prod(r, s, t) == /\ Have(s) /\ Have(t) /\ Small(Lg(reg[s]) + Lg(reg[t]), (Size(reg[s]) * Size(reg[t])) \div 2)
                 /\ Set(r, Product(reg[s], reg[t]), Lg(reg[s]) + Lg(reg[t]), (Size(reg[s]) * Size(reg[t])) \div 2, [op |-> "prod", r |-> r, s |-> s, t |-> t])
Iter(r, s) == \E i \in 0 .. MaxIter :
                 /\ Have(s) /\ Small(Lg(reg[s]) * i, Size(reg[s]) * i)
                 /\ Set(r, Iterate(reg[s], i), Lg(reg[s]) * i, Size(reg[s]) * i + 1, [op |-> "iter", r |-> r, s |-> s, i |-> i])
TailOf(s) == \E t2 \in 0 .. 12 : Have(s) /\ hist' = Append(hist, [op |-> "tail", s |-> s, t2 |-> t2]) /\ UNCHANGED << reg, mach >>
Stat(s) == Have(s) /\ Lg(reg[s]) <= 8 /\ hist' = Append(hist, [op |-> "stat", s |-> s]) /\ UNCHANGED << reg, mach >>
Diff(s) == \E m \in {2, 4} : Have(s) /\ Lg(reg[s]) <= 4 /\ Size(reg[s]) <= 12
                 /\ hist' = Append(hist, [op |-> "diff", s |-> s, m |-> m]) /\ UNCHANGED << reg, mach >>
Ops == Len(hist) < MaxOps /\ (\E r, s, t \in Regs : Binom(r) \/ Given(r) \/ ErrLaw(r) \/ Conv(r, s, t) \/ Prod(r, s, t) \/ Iter(r, s)
                               \/ TailOf(s) \/ Stat(s) \/ Diff(s))
(* the double-and-add machine, started on a register *)
RECURSIVE Bits(_)
Bits(i) == IF i < 2 THEN << i >> ELSE Append(Bits(i \div 2), i - 2 * (i \div 2))
Start == /\ ~mach.on /\ \E s \in Regs, i \in 0 .. MaxIter :
            /\ Have(s) /\ Small(Lg(reg[s]) * i, Size(reg[s]) * i)
            /\ mach' = [on |-> TRUE, A |-> reg[s], todo |-> Bits(i), done |-> 0, D |-> Point]
         /\ UNCHANGED << reg, hist >>
Step == /\ mach.on /\ mach.todo # << >>
        /\ LET D2 == Convolution(mach.D, mach.D)
               one == Head(mach.todo) = 1
           IN mach' = [mach EXCEPT !.todo = Tail(@), !.done = 2 * @ + (IF one THEN 1 ELSE 0),
                                   !.D = IF one THEN Convolution(D2, mach.A) ELSE D2]
        /\ UNCHANGED << reg, hist >>
Next == Ops \/ Start \/ Step
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Ops]_vars
Machine == mach.on => Same(mach.D, Iterate(mach.A, mach.done))
Normal == \A r \in Regs : Have(r) => Unit(reg[r])
\* the tail loop of the code against its definition; weights add up
RECURSIVE Loop(_, _, _)
Loop(L, i, lo) == IF i < lo THEN 0 ELSE Wt(L, i) + Wt(L, -i) + Loop(L, i - 1, lo)
TailLoop(L, t2) == LET ma == Max({Abs(x) : x \in Supp(L)}) IN IF t2 >= 2 * ma THEN 0 ELSE Loop(L, ma, t2 \div 2 + 1)
Tails == \A r \in Regs : Have(r) => /\ \A t2 \in 0 .. 9 : TailLoop(reg[r], t2) = Beyond(reg[r], t2)
                                    /\ Beyond(reg[r], 0) + Wt(reg[r], 0) = Mass(reg[r])
View == << reg, mach, Len(hist) >>
Emit == Len(hist) = MaxOps => PrintT("BEHAVIOUR " \o ToJson(hist))
=========================================================================
