---------------------------------- MODULE Jets ----------------------------------
(***************************************************************************)
(* Exact second order differentiation at a point: a jet is                 *)
(* <<value, derivative along a, derivative along b, mixed derivative a b>> *)
(* with parts that are numbers, 3-vectors or 3x3 matrices of integers, or  *)
(* Z (identically zero).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Z == <<>>
Const(x) == <<x, Z, Z, Z>>
\* bilinear operations on the parts
VAdd(a, b) == IF a = Z THEN b ELSE IF b = Z THEN a ELSE <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VScl(k, a) == IF a = Z THEN Z ELSE <<k * a[1], k * a[2], k * a[3]>>
MAdd(a, b) == IF a = Z THEN b ELSE IF b = Z THEN a ELSE <<VAdd(a[1], b[1]), VAdd(a[2], b[2]), VAdd(a[3], b[3])>>
MScl(k, a) == IF a = Z THEN Z ELSE <<VScl(k, a[1]), VScl(k, a[2]), VScl(k, a[3])>>
SAdd(a, b) == IF a = Z THEN b ELSE IF b = Z THEN a ELSE <<a[1] + b[1]>>      \* scalars are 1-tuples
SScl(k, a) == IF a = Z THEN Z ELSE <<k * a[1]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Dot(a, b) == IF a = Z \/ b = Z THEN Z ELSE <<Dot3(a, b)>>
MV(m, v) == IF m = Z \/ v = Z THEN Z ELSE <<Dot3(m[1], v), Dot3(m[2], v), Dot3(m[3], v)>>
Tr3(m) == <<<<m[1][1], m[2][1], m[3][1]>>, <<m[1][2], m[2][2], m[3][2]>>, <<m[1][3], m[2][3], m[3][3]>>>>
Tr(m) == IF m = Z THEN Z ELSE Tr3(m)
MM(m, n) == IF m = Z \/ n = Z THEN Z
            ELSE LET t == Tr3(n) IN <<<<Dot3(m[1], t[1]), Dot3(m[1], t[2]), Dot3(m[1], t[3])>>,
                                      <<Dot3(m[2], t[1]), Dot3(m[2], t[2]), Dot3(m[2], t[3])>>,
                                      <<Dot3(m[3], t[1]), Dot3(m[3], t[2]), Dot3(m[3], t[3])>>>>
Cross(a, b) == IF a = Z \/ b = Z THEN Z
               ELSE <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
SMul(a, b) == IF a = Z \/ b = Z THEN Z ELSE <<a[1] * b[1]>>
SV(a, v) == IF a = Z \/ v = Z THEN Z ELSE VScl(a[1], v)
Trace3(m) == IF m = Z THEN Z ELSE <<m[1][1] + m[2][2] + m[3][3]>>
Vee2(m) == IF m = Z THEN Z ELSE <<m[3][2] - m[2][3], m[1][3] - m[3][1], m[2][1] - m[1][2]>>   \* twice the vee of the skew part

JAdd(A(_, _), x, y) == <<A(x[1], y[1]), A(x[2], y[2]), A(x[3], y[3]), A(x[4], y[4])>>
JLin(F(_), x) == <<F(x[1]), F(x[2]), F(x[3]), F(x[4])>>
JBil(B(_, _), A(_, _), x, y) ==
  <<B(x[1], y[1]), A(B(x[2], y[1]), B(x[1], y[2])), A(B(x[3], y[1]), B(x[1], y[3])),
    A(A(B(x[4], y[1]), B(x[1], y[4])), A(B(x[2], y[3]), B(x[3], y[2])))>>
JVAdd(x, y) == JAdd(VAdd, x, y)
JVScl(k, x) == JLin(LAMBDA v : VScl(k, v), x)
JVSub(x, y) == JVAdd(x, JVScl(-1, y))
JMAdd(x, y) == JAdd(MAdd, x, y)
JMScl(k, x) == JLin(LAMBDA v : MScl(k, v), x)
JSAdd(x, y) == JAdd(SAdd, x, y)
JSScl(k, x) == JLin(LAMBDA v : SScl(k, v), x)
JMM(x, y) == JBil(MM, MAdd, x, y)
JMV(x, y) == JBil(MV, VAdd, x, y)
JCross(x, y) == JBil(Cross, VAdd, x, y)
JDot(x, y) == JBil(Dot, SAdd, x, y)
JSMul(x, y) == JBil(SMul, SAdd, x, y)
JSV(x, y) == JBil(SV, VAdd, x, y)
JTr(x) == JLin(Tr, x)
JComp(k, x) == JLin(LAMBDA v : IF v = Z THEN Z ELSE <<v[k]>>, x)
Scal(p) == IF p = Z THEN 0 ELSE p[1]
\* a 3-vector of variables: value v, seeds: a (resp. b) is the component which is varied, 0 for none
Unit3(k) == CASE k = 1 -> <<1, 0, 0>> [] k = 2 -> <<0, 1, 0>> [] k = 3 -> <<0, 0, 1>> [] OTHER -> Z
Var3(v, ka, kb) == <<v, Unit3(ka), Unit3(kb), Z>>
Var1(x, sa, sb) == <<<<x>>, IF sa THEN <<1>> ELSE Z, IF sb THEN <<1>> ELSE Z, Z>>
=============================================================================
