-------------------------------- MODULE Levi --------------------------------
(***************************************************************************)
(* Properties C01-C03: the expression library.  An expression denotes a    *)
(* matrix of Laurent polynomials over the entries of its variables; its    *)
(* evaluation is the value of that matrix at the values the variables hold *)
(* now, its derivatives are the partial derivatives of the polynomials,    *)
(* and squeezing changes nothing.                                          *)
(*                                                                         *)
(* Variables: y (3 entries), w (2), the scalars s and t, and a (3), which  *)
(* is defined by an expression over the others ("as variable"), followed   *)
(* by derivatives (dependent) or not (independent).                        *)
(* A monomial is the integer  SUM exponent(k) * W[k]; the exponents of s   *)
(* and t lie in -7..7, the other exponents in 0..6.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NS == 10
\* y1 y2 y3 w1 w2 a1 a2 a3 s t
W == <<1, 7, 49, 343, 2401, 16807, 117649, 823543, 5764801, 92236816>>
W11 == 1475789056
Groups == {"y", "w", "a", "s", "t"}
Syms(g) == CASE g = "y" -> <<1, 2, 3>> [] g = "w" -> <<4, 5>> [] g = "a" -> <<6, 7, 8>> [] g = "s" -> <<9>> [] OTHER -> <<10>>
Dim(g) == Len(Syms(g))

Shifted(m) == m + 7 * W[9] + 7 * W[10]
Exp(m, k) == LET x == Shifted(m) IN
  CASE k = 10 -> (x \div W[10]) - 7
    [] k = 9 -> ((x % W[10]) \div W[9]) - 7
    [] OTHER -> (x % W[k + 1]) \div W[k]
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Lg(_)       \* number of binary digits
Lg(x) == IF x <= 0 THEN 0 ELSE 1 + Lg(x \div 2)
RECURSIVE IPow(_, _)
IPow(b, k) == IF k <= 0 THEN 1 ELSE b * IPow(b, k - 1)

(***************************** polynomials ********************************)
\* a function from monomials to coefficients, none of which is zero
PZero == <<>>
Eager(f) == f @@ <<>>
Clean(f) == LET Z == {m \in DOMAIN f : f[m] # 0} IN IF Z = {} THEN PZero ELSE Eager([m \in Z |-> f[m]])
PConst(c) == IF c = 0 THEN PZero ELSE (0 :> c)
PVar(k) == (W[k] :> 1)
At(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
PAdd(p, q) == Clean([m \in DOMAIN p \cup DOMAIN q |-> At(p, m) + At(q, m)])
PScale(p, c) == IF c = 0 THEN PZero ELSE IF c = 1 THEN p ELSE Clean([m \in DOMAIN p |-> c * p[m]])
PMul(p, q) ==
  IF p = PZero \/ q = PZero THEN PZero
  ELSE Clean([m \in {x + y : x \in DOMAIN p, y \in DOMAIN q} |->
               FoldSet(LAMBDA x, acc : acc + p[x] * At(q, m - x), 0, DOMAIN p)])
\* partial derivative
PDer(p, k) == LET S == {m \in DOMAIN p : Exp(m, k) # 0} IN
              IF S = {} THEN PZero ELSE Eager([m \in {x - W[k] : x \in S} |-> p[m + W[k]] * Exp(m + W[k], k)])
PSum(ps) == FoldLeft(PAdd, PZero, ps)
SAbs(p) == FoldSet(LAMBDA m, acc : acc + AbsI(p[m]), 0, DOMAIN p)

(******************************* matrices *********************************)
\* r rows, c columns, entries m (row after row) over the denominator 2^e; d: sizes which keep the numbers small
PosDeg(m) == Exp(m, 1) + Exp(m, 2) + Exp(m, 3) + Exp(m, 4) + Exp(m, 5) + 2 * (Exp(m, 6) + Exp(m, 7) + Exp(m, 8))
MaxOf(S) == IF S = {} THEN 0 ELSE Max(S)
SizeOf(ms) ==
  LET D == UNION {DOMAIN ms[i] : i \in 1..Len(ms)} IN
  [p |-> MaxOf({PosDeg(m) : m \in D}), s |-> MaxOf({AbsI(Exp(m, 9)) : m \in D}), t |-> MaxOf({AbsI(Exp(m, 10)) : m \in D}),
   a |-> MaxOf({SAbs(ms[i]) : i \in 1..Len(ms)}), n |-> MaxOf({Cardinality(DOMAIN ms[i]) : i \in 1..Len(ms)})]
Mat(r, c, e, ms) == [r |-> r, c |-> c, e |-> e, m |-> ms, d |-> SizeOf(ms)]
None == [r |-> 0]
MaxSide == 6
SideOk(r, c) == r <= MaxSide /\ c <= MaxSide /\ r * c <= 18
MOk(M) == /\ M.r > 0 /\ SideOk(M.r, M.c) /\ M.e <= 6
          /\ M.d.p <= 6 /\ M.d.s <= 5 /\ M.d.t <= 5 /\ M.d.a <= 2000 /\ M.d.n <= 24
          /\ Lg(M.d.a) + M.d.p + 2 * (M.d.s + M.d.t) <= 26
Cell(M, i, j) == M.m[(i - 1) * M.c + j]
\* rows by rows, eagerly
Grid(r, c, f(_, _)) == FoldLeft(LAMBDA acc, k : Append(acc, f(((k - 1) \div c) + 1, ((k - 1) % c) + 1)), <<>>, [k \in 1..(r * c) |-> k])
Up(M, e) == IF M.e = e THEN M ELSE [M EXCEPT !.e = e, !.m = FoldLeft(LAMBDA acc, p : Append(acc, PScale(p, Pow2(e - M.e))), <<>>, M.m)]
Map1(M, f(_)) == Mat(M.r, M.c, M.e, FoldLeft(LAMBDA acc, p : Append(acc, f(p)), <<>>, M.m))
IsScalar(M) == M.r = 1 /\ M.c = 1
IsZero(M) == \A i \in 1..Len(M.m) : M.m[i] = PZero

MNeg(A) == Map1(A, LAMBDA p : PScale(p, -1))
MAddAt(A, B, sg, e) == LET A1 == Up(A, e)  B1 == Up(B, e) IN
  Mat(A.r, A.c, e, Grid(A.r, A.c, LAMBDA i, j : PAdd(Cell(A1, i, j), PScale(Cell(B1, i, j), sg))))
MAdd(A, B, sg) == IF A.r # B.r \/ A.c # B.c THEN None ELSE MAddAt(A, B, sg, IF A.e > B.e THEN A.e ELSE B.e)
\* the sizes of a product are checked before it is computed
MulSafe(A, B) == /\ A.d.p + B.d.p <= 6 /\ A.d.s + B.d.s <= 7 /\ A.d.t + B.d.t <= 7 /\ A.d.a * B.d.a <= 4000
                 /\ A.d.n * B.d.n <= 80 /\ A.e + B.e <= 6
MMul(A, B) ==
  IF ~MulSafe(A, B) THEN None
  ELSE IF IsScalar(A) THEN Map1([B EXCEPT !.e = A.e + B.e], LAMBDA p : PMul(A.m[1], p))
  ELSE IF IsScalar(B) THEN Map1([A EXCEPT !.e = A.e + B.e], LAMBDA p : PMul(p, B.m[1]))
  ELSE IF A.c # B.r \/ ~SideOk(A.r, B.c) THEN None
  ELSE Mat(A.r, B.c, A.e + B.e, Grid(A.r, B.c, LAMBDA i, j : PSum([k \in 1..A.c |-> PMul(Cell(A, i, k), Cell(B, k, j))])))
MTr(A) == Mat(A.c, A.r, A.e, Grid(A.c, A.r, LAMBDA i, j : Cell(A, j, i)))
MSkew(A) == IF A.r # 3 \/ A.c # 1 THEN None ELSE
  LET x == A.m[1]  y == A.m[2]  z == A.m[3]  n(p) == PScale(p, -1) IN
  Mat(3, 3, A.e, <<PZero, n(z), y, z, PZero, n(x), n(y), x, PZero>>)
IsSkew(A) == A.r = 3 /\ A.c = 3 /\ \A i, j \in 1..3 : Cell(A, i, j) = PScale(Cell(A, j, i), -1)
MVee(A) == IF ~IsSkew(A) THEN None ELSE Mat(3, 1, A.e, <<Cell(A, 3, 2), Cell(A, 1, 3), Cell(A, 2, 1)>>)
MBlock(A, i, j, r, c) == IF i + r - 1 > A.r \/ j + c - 1 > A.c THEN None ELSE
                         Mat(r, c, A.e, Grid(r, c, LAMBDA x, y : Cell(A, i + x - 1, j + y - 1)))
MHcatAt(A, B, e) == LET A1 == Up(A, e)  B1 == Up(B, e) IN
  Mat(A.r, A.c + B.c, e, Grid(A.r, A.c + B.c, LAMBDA i, j : IF j <= A.c THEN Cell(A1, i, j) ELSE Cell(B1, i, j - A.c)))
MHcat(A, B) == IF A.r # B.r \/ ~SideOk(A.r, A.c + B.c) THEN None ELSE MHcatAt(A, B, IF A.e > B.e THEN A.e ELSE B.e)
MVcat(A, B) == IF A.c # B.c \/ ~SideOk(A.r + B.r, A.c) THEN None ELSE MTr(MHcat(MTr(A), MTr(B)))
\* a scalar which is a single unit: plus or minus a power of two, times powers of s and t
LgExact(c) == IF c > 0 /\ Pow2(Lg(c) - 1) = c THEN Lg(c) - 1 ELSE -1
IsUnit(M) == /\ IsScalar(M) /\ Cardinality(DOMAIN M.m[1]) = 1
             /\ \A m \in DOMAIN M.m[1] : PosDeg(m) = 0 /\ LgExact(AbsI(M.m[1][m])) >= 0
\* its inverse: exponents change sign, 1/(c 2^-e) = sign(c) 2^(e-j)
MInv(M) ==
  LET m == CHOOSE x \in DOMAIN M.m[1] : TRUE
      c == M.m[1][m]
      j == LgExact(AbsI(c))
      sg == IF c < 0 THEN -1 ELSE 1
  IN IF M.e >= j THEN Mat(1, 1, 0, <<(-m :> sg * Pow2(M.e - j))>>) ELSE Mat(1, 1, j - M.e, <<(-m :> sg)>>)
MDiv(A, B) == IF ~IsUnit(B) THEN None ELSE MMul(A, MInv(B))
RECURSIVE MPow(_, _)
MPow(A, n) == IF ~IsScalar(A) THEN None
              ELSE IF n = 0 THEN Mat(1, 1, 0, <<PConst(1)>>)
              ELSE IF n = 1 THEN A
              ELSE IF n < 0 THEN (IF IsUnit(A) THEN MPow(MInv(A), -n) ELSE None)
              ELSE LET h == MPow(A, n - 1) IN IF h.r = 0 THEN None ELSE MMul(A, h)
\* columns (or rows) put side by side
MCols(Ms) == FoldLeft(LAMBDA acc, M : IF acc.r = 0 THEN None ELSE MHcat(acc, M), Head(Ms), Tail(Ms))
MRows(Ms) == FoldLeft(LAMBDA acc, M : IF acc.r = 0 THEN None ELSE MVcat(acc, M), Head(Ms), Tail(Ms))
MLeaf(g) == Mat(Dim(g), 1, 0, [i \in 1..Dim(g) |-> PVar(Syms(g)[i])])
MConst(r, c, e, ns) == Mat(r, c, e, [k \in 1..(r * c) |-> PConst(ns[k])])
MEye(r, c) == Mat(r, c, 0, Grid(r, c, LAMBDA i, j : PConst(IF i = j THEN 1 ELSE 0)))

(****************************** derivatives *******************************)
\* as: the definition of the variable a, followed only when it is dependent
TotalDer(p, k, as) ==
  IF as.k # "dep" THEN PDer(p, k)
  ELSE PSum(<<PDer(p, k)>> \o [j \in 1..3 |-> LET q == PDer(p, 5 + j) IN IF q = PZero THEN PZero ELSE PMul(q, PDer(as.M.m[j], k))])
MDer(A, col, g, as) == Mat(A.r, Dim(g), A.e, Grid(A.r, Dim(g), LAMBDA i, j : TotalDer(Cell(A, i, col), Syms(g)[j], as)))
Depends(A, g, as) == \E c \in 1..A.c : ~IsZero(MDer(A, c, g, as))

(******************************* evaluation *******************************)
\* v: values of the ten symbols; the result is in units of 2^-(s + t + e)
MonoVal(m, v, ds, dt) ==
  LET sc(k, d) == LET x == Exp(m, k) IN IF x >= 0 THEN IPow(v[k], x) * Pow2(d)
                                        ELSE IPow(IF v[k] < 0 THEN -1 ELSE 1, -x) * Pow2(d + (IF AbsI(v[k]) = 2 THEN x ELSE 0))
  IN FoldLeft(LAMBDA acc, k : LET x == Exp(m, k) IN IF x = 0 \/ acc = 0 THEN acc ELSE acc * IPow(v[k], x), sc(9, ds) * sc(10, dt), <<1, 2, 3, 4, 5, 6, 7, 8>>)
PVal(p, v, ds, dt) == FoldSet(LAMBDA m, acc : acc + p[m] * MonoVal(m, v, ds, dt), 0, DOMAIN p)
RECURSIVE Norm(_, _)
Norm(n, e) == IF n = 0 THEN <<0, 0>> ELSE IF e > 0 /\ n % 2 = 0 THEN Norm(n \div 2, e - 1) ELSE <<n, e>>
MVal(M, v) == [i \in 1..Len(M.m) |-> Norm(PVal(M.m[i], v, M.d.s, M.d.t), M.e + M.d.s + M.d.t)]

(***************************************************************************)
(* The state: values of the free symbols, definition of a, expression      *)
(* slots, members of the squeezed collection.                              *)
(***************************************************************************)
NoAs == [k |-> "none"]
NSlots == 12
Fresh == [vars |-> {}, v |-> <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1>>, as |-> NoAs, sl |-> [k \in 1..NSlots |-> None], sq |-> <<>>, rd |-> [k \in 1..NSlots |-> <<>>]]
\* values with a computed from its definition
Now(st) == IF st.as.k = "none" THEN st.v
           ELSE LET q == MVal(st.as.M, st.v) IN [st.v EXCEPT ![6] = q[1][1], ![7] = q[2][1], ![8] = q[3][1]]
Slot(st, k) == st.sl[k]
Live(st) == {k \in 1..NSlots : st.sl[k].r > 0}
CanDiff(M) == "nd" \notin DOMAIN M
NoDiff(M) == [nd |-> 1] @@ M

Un(A, c) ==
  CASE c.f \in {"pos", "cast", "copy"} -> A
    [] c.f = "sq" -> NoDiff(A)
    [] c.f = "neg" -> MNeg(A)
    [] c.f = "tr" -> MTr(A)
    [] c.f = "skew" -> MSkew(A)
    [] c.f = "vee" -> MVee(A)
    [] c.f = "pow" -> MPow(A, c.i)
    [] c.f = "row" -> MBlock(A, c.i, 1, 1, A.c)
    [] c.f = "col" -> MBlock(A, 1, c.i, A.r, 1)
    [] c.f = "el" -> MBlock(A, c.i, c.j, 1, 1)
    [] c.f = "blk" -> MBlock(A, c.i, c.j, c.r, c.c)
    [] c.f = "fblk" -> MBlock(A, c.i, c.j, c.r, c.c)
    [] OTHER -> None
Bin(A, B, f) ==
  CASE f = "add" -> MAdd(A, B, 1) [] f = "sub" -> MAdd(A, B, -1) [] f = "mul" -> MMul(A, B)
    [] f = "div" -> MDiv(A, B) [] f = "hcat" -> MHcat(A, B) [] f = "vcat" -> MVcat(A, B) [] OTHER -> None
\* literal operand: a scalar (sc = 1) or a matrix
LitM(c) == MConst(c.r, c.c, c.e, c.n)
Raw(st, c) ==
  CASE c.op = "leaf" -> MLeaf(c.g)
    [] c.op = "const" -> MConst(c.r, c.c, 0, c.n)
    [] c.op = "null" -> MConst(c.r, c.c, 0, [k \in 1..(c.r * c.c) |-> 0])
    [] c.op = "eye" -> MEye(c.r, c.c)
    [] c.op = "un" -> Un(Slot(st, c.a), c)
    [] c.op = "bin" -> Bin(Slot(st, c.a), Slot(st, c.b), c.f)
    [] c.op = "lit" -> IF c.left = 1 THEN Bin(LitM(c), Slot(st, c.a), c.f) ELSE Bin(Slot(st, c.a), LitM(c), c.f)
    [] c.op = "rows" -> MRows([k \in 1..Len(c.l) |-> Slot(st, c.l[k])])
    [] c.op = "cols" -> MCols([k \in 1..Len(c.l) |-> Slot(st, c.l[k])])
    [] c.op = "deriv" -> MDer(Slot(st, c.a), c.col, c.g, st.as)
    [] c.op = "assign" -> Slot(st, c.a)
    [] OTHER -> None
Uses(c) == CASE c.op \in {"un", "lit", "assign"} -> {c.a} [] c.op = "bin" -> {c.a, c.b} [] c.op \in {"rows", "cols"} -> ToSet(c.l) [] OTHER -> {}
Result(st, c) == LET M == Raw(st, c) IN
  IF M.r > 0 /\ \E k \in Uses(c) : ~CanDiff(Slot(st, k)) THEN NoDiff(M) ELSE M
\* commands which build an expression
Building == {"leaf", "const", "null", "eye", "un", "bin", "lit", "rows", "cols", "deriv", "assign"}
\* the definition of a: for each row a sum of at most two terms, each a symbol and its coefficient 1 or -1
AsDef(d) == Mat(3, 1, 0, FoldLeft(LAMBDA acc, row : Append(acc, PSum([i \in 1..Len(row) |-> PScale(PVar(row[i][1]), row[i][2])])), <<>>, d))
SetVal(v, g, x) == LET f == Syms(g) IN [k \in 1..NS |-> IF \E i \in 1..Len(f) : f[i] = k THEN x[CHOOSE i \in 1..Len(f) : f[i] = k] ELSE v[k]]
Apply(st, c) ==
  CASE c.op = "world" -> [Fresh EXCEPT !.vars = {g \in {"y", "w", "s", "t"} : c[g].k = "var"}]
    [] c.op = "set" -> [st EXCEPT !.v = SetVal(@, c.g, c.x)]
    [] c.op \in Building -> LET M == Result(st, c) IN [st EXCEPT !.sl[c.dst] = M, !.rd[c.dst] = <<>>]
    [] c.op \in {"drop", "void"} -> [st EXCEPT !.sl[c.dst] = None, !.rd[c.dst] = <<>>]
    [] c.op = "asvar" -> LET M == AsDef(c.d) IN [st EXCEPT !.as = [k |-> c.k, M |-> M], !.vars = @ \cup {"a"}]
    \* what the holder of a slot has seen
    [] c.op = "eval" /\ c.f = "self" -> [st EXCEPT !.rd[c.a] = MVal(Slot(st, c.a), Now(st))]
    [] c.op = "all" -> [st EXCEPT !.rd = FoldLeft(LAMBDA q, k : Append(q, IF st.sl[k].r = 0 THEN <<>> ELSE MVal(st.sl[k], Now(st))), <<>>, [k \in 1..NSlots |-> k])]
    [] c.op = "msq" -> [st EXCEPT !.sq = [i \in 1..Len(c.l) |-> Slot(st, c.l[i])]]
    [] OTHER -> st
=============================================================================
