------------------------------- MODULE LeviThm -------------------------------
(* The denotations obey the laws the library relies on when it rewrites     *)
(* expressions and derives them.  TLC enumerates pairs of small expressions. *)
EXTENDS Levi
CONSTANT Deep
Y == MLeaf("y")
A3 == MLeaf("a")
Sc == MLeaf("s")
Tm == MLeaf("t")
Eye3 == MEye(3, 3)
C3 == MConst(3, 3, 0, <<1, 2, 0, 0, -1, 1, 2, 0, 1>>)
As == [k |-> "dep", M |-> Mat(3, 1, 0, <<PAdd(PVar(1), PVar(2)), PVar(4), PAdd(PVar(3), PScale(PVar(9), -1))>>)]
AsI == [As EXCEPT !.k = "ind"]
Base == IF Deep = 0 THEN {MMul(Sc, Y), MAdd(Y, A3, -1), MDiv(Y, Tm)} ELSE {Y, A3, MMul(Sc, Y), MAdd(Y, A3, -1), MDiv(Y, Tm), MConst(3, 1, 1, <<1, -2, 3>>)}
Sq3 == {MSkew(x) : x \in Base} \cup {MMul(x, MTr(z)) : x, z \in {Y, A3}} \cup {C3, Eye3}
Scal == IF Deep = 0 THEN {MDiv(Sc, Tm), MMul(MTr(Y), A3), MPow(Tm, -2)} ELSE {Sc, Tm, MDiv(Sc, Tm), MMul(MTr(Y), A3), MPow(Tm, -2), MPow(MMul(MTr(Y), Y), 1)}
VARIABLES x, y, m, k
Init == x \in Base /\ y = Y /\ m = Eye3 /\ k = Sc
Next == \E a, b \in Base : \E q \in Sq3 : \E r \in Scal : x' = a /\ y' = b /\ m' = q /\ k' = r
Spec == Init /\ [][Next]_<<x, y, m, k>>
Gs == {"y", "s", "t", "a", "w"}
\* evaluation commutes with the operators
Vs == {<<1, -2, 2, 1, 0, 0, 0, 0, 2, -1>>, <<-1, 0, 1, -2, 2, 0, 0, 0, -2, 2>>}
Full(v) == Now([as |-> As, v |-> v])
Same(A, B) == A.r > 0 => (B.r > 0 => (A.r = B.r /\ A.c = B.c /\ \A v \in Vs : MVal(A, Full(v)) = MVal(B, Full(v))))
Leibniz == \A g \in Gs : \A as \in {As, AsI} :
  LET P == MMul(k, x) IN P.r > 0 =>
    Same(MDer(P, 1, g, as), MAdd(MMul(x, MDer(k, 1, g, as)), MMul(k, MDer(x, 1, g, as)), 1))
LeibnizM == \A g \in {"y", "a"} : LET P == MMul(m, x) IN P.r > 0 =>
    \* d(m x)/dg = SUM_j x_j dm_j/dg + m dx/dg
    LET cols == [j \in 1..3 |-> MMul(MBlock(x, j, 1, 1, 1), MDer(m, j, g, As))] IN
    (\A j \in 1..3 : cols[j].r > 0) =>
    Same(MDer(P, 1, g, As), MAdd(MAdd(cols[1], MAdd(cols[2], cols[3], 1), 1), MMul(m, MDer(x, 1, g, As)), 1))
Transposes == LET P == MMul(m, x) IN P.r > 0 => Same(MTr(P), MMul(MTr(x), MTr(m)))
SkewFacts == /\ Same(MNeg(MSkew(x)), MTr(MSkew(x))) /\ MVee(MSkew(x)) = x
             /\ LET a == MMul(MSkew(x), y)  b == MMul(MSkew(y), x) IN (a.r > 0 /\ b.r > 0) => Same(a, MNeg(b))
Quotients == \A g \in Gs : LET P == MDiv(x, Tm) IN P.r > 0 =>
    Same(MDer(P, 1, g, As), MAdd(MMul(MInv(Tm), MDer(x, 1, g, As)), MMul(x, MDer(MInv(Tm), 1, g, As)), 1))
Chain == \A g \in {"y", "s", "w"} : \* through a dependent variable: substitute, then derive
    Same(MDer(MAdd(x, y, 1), 1, g, As), MAdd(MDer(x, 1, g, As), MDer(y, 1, g, As), 1))
Symmetric2 == \A g \in {"y", "s"} : \A h \in {"y", "t"} :
    LET D1(i) == MDer(k, 1, g, AsI)  F == D1(0) IN
    \A i \in 1..Dim(g) : \A j \in 1..Dim(h) :
       Cell(MDer(MBlock(F, 1, i, 1, 1), 1, h, AsI), 1, j) = Cell(MDer(MBlock(MDer(k, 1, h, AsI), 1, j, 1, 1), 1, g, AsI), 1, i)
\* rewriting used by the library
Rewrites == /\ LET a == MMul(k, MMul(k, x))  b == MMul(MMul(k, k), x) IN (a.r > 0 /\ b.r > 0) => Same(a, b)
            /\ LET a == MAdd(MMul(m, x), MMul(Eye3, x), 1)  b == MMul(MAdd(m, Eye3, 1), x) IN (a.r > 0 /\ b.r > 0) => Same(a, b)
            /\ LET a == MAdd(x, y, -1)  b == MNeg(MAdd(y, x, -1)) IN Same(a, b)
\* a derivative is zero exactly when the expression does not depend on the variable, and a dependent variable is followed
Deps == \A g \in Gs : Depends(m, g, As) <=> \E j \in 1..3 : ~IsZero(MDer(m, j, g, As))
Follows == Depends(A3, "w", As) /\ Depends(A3, "s", As) /\ ~Depends(A3, "w", AsI) /\ Depends(A3, "a", AsI) /\ ~Depends(A3, "t", As)
Codes == \A i \in 1..NS : \A e \in (IF i < 9 THEN 0..6 ELSE -7..7) : \A j \in 1..NS : Exp(e * W[i], j) = (IF i = j THEN e ELSE 0)
=============================================================================
