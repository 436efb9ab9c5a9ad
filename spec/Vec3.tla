-------------------------------- MODULE Vec3 --------------------------------
(* Integer 3-vectors and matrices; the 24 rotations of the cube.            *)
EXTENDS Integers, Sequences, FiniteSets
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VNeg(a) == VScale(-1, a)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero3 == <<0, 0, 0>>
\* matrices are sequences of rows
MV(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Tr(m) == <<Col(m, 1), Col(m, 2), Col(m, 3)>>
MM(a, b) == LET bt == Tr(b) IN [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], bt[j])]]
MAdd(a, b) == [i \in 1..3 |-> VAdd(a[i], b[i])]
MScale(k, a) == [i \in 1..3 |-> VScale(k, a[i])]
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Skew(v) == <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
UnitRows == { <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>> }
CubeRotations == { <<a, b, Cross(a, b)>> : a \in UnitRows, b \in { c \in UnitRows : TRUE } } \cap
                 { m \in { <<a, b, Cross(a, b)>> : a \in UnitRows, b \in UnitRows } : Dot(m[1], m[2]) = 0 }
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == AbsI(a - b) <= tol
=============================================================================
