------------------------ MODULE LawModelMutant --------------------------
(* A planted error: the tail includes its bound.                          *)
EXTENDS LawModel
BadTailLoop(L, t2) == LET ma == Max({Abs(x) : x \in Supp(L)}) IN Loop(L, ma, t2 \div 2)
=========================================================================
