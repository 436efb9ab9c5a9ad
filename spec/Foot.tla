-------------------------------- MODULE Foot --------------------------------
(***************************************************************************)
(* Property C22: a foot wrench is distributed to the four corners of a     *)
(* rectangular foot.  Lengths are even integers, so half lengths and the   *)
(* centre are integers.  Recorded forces are in units of 1/Q newton.       *)
(***************************************************************************)
EXTENDS Vec3
Q == 4096

NoFoot == [set |-> FALSE, l |-> 0, d |-> 0, tl |-> Zero3]
SetOk(xl, yl) == xl > 0 /\ yl > 0
SetStep(s, xl, yl, tl) == IF SetOk(xl, yl) THEN [set |-> TRUE, l |-> xl, d |-> yl, tl |-> tl] ELSE s

Center(s) == VSub(s.tl, <<s.l \div 2, s.d \div 2, 0>>)
\* top left, top right, bottom left, bottom right, in the foot frame (x forward)
Corner(s, i) == VAdd(Center(s), CASE i = 1 -> <<s.l \div 2, s.d \div 2, 0>>
                                  [] i = 2 -> <<s.l \div 2, -(s.d \div 2), 0>>
                                  [] i = 3 -> <<-(s.l \div 2), s.d \div 2, 0>>
                                  [] OTHER -> <<-(s.l \div 2), -(s.d \div 2), 0>>)
Points(s, R, p) == [i \in 1..4 |-> VAdd(MV(R, Corner(s, i)), p)]

(***************************************************************************)
(* Ratios for a centre of pressure (cx, cy) relative to the foot centre,   *)
(* as numerators over 4*l*d.  The corner weights that reproduce the centre *)
(* of pressure form a segment; the bottom right weight is the middle of    *)
(* its non-negative part.                                                  *)
(***************************************************************************)
Den(s) == 4 * s.l * s.d
K(s, cx, cy)  == 4 * (cx * s.d + cy * s.l)
Lo(s, cx, cy) == MaxI(0, -K(s, cx, cy))
Hi(s, cx, cy) == MinI(2 * s.l * s.d - 4 * cy * s.l, 2 * s.l * s.d - 4 * cx * s.d)
RatioBR(s, cx, cy) == (Lo(s, cx, cy) + Hi(s, cx, cy)) \div 2
Ratio(s, cx, cy, i) ==
  LET br == RatioBR(s, cx, cy)
      tl == br + K(s, cx, cy)
      tr == 2 * s.l * s.d - 4 * cy * s.l - br
  IN CASE i = 1 -> tl [] i = 2 -> tr [] i = 3 -> Den(s) - tl - tr - br [] OTHER -> br
Inside(s, cx, cy) == 2 * AbsI(cx) <= s.l /\ 2 * AbsI(cy) <= s.d

\* design-level theorems, checked exhaustively
SumOne(s, cx, cy) == Ratio(s, cx, cy, 1) + Ratio(s, cx, cy, 2) + Ratio(s, cx, cy, 3) + Ratio(s, cx, cy, 4) = Den(s)
NonNeg(s, cx, cy) == Inside(s, cx, cy) => \A i \in 1..4 : Ratio(s, cx, cy, i) >= 0
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE SumTo(F, n - 1) + F(n)
CopX(s, cx, cy) == SumTo(LAMBDA i : Ratio(s, cx, cy, i) * (Corner(s, i)[1] - Center(s)[1]), 4) = cx * Den(s)
CopY(s, cx, cy) == SumTo(LAMBDA i : Ratio(s, cx, cy, i) * (Corner(s, i)[2] - Center(s)[2]), 4) = cy * Den(s)
Theorems(s, cx, cy) == SumOne(s, cx, cy) /\ NonNeg(s, cx, cy) /\ CopX(s, cx, cy) /\ CopY(s, cx, cy)

(***************************************************************************)
(* Forces.  The request is given by the force f, the centre of pressure    *)
(* (cx, cy) and the vertical moment tz about the centre; the wrench handed *)
(* to the code is expressed at the frame origin.  Tangential forces are    *)
(* not prescribed one by one: only their resultant and vertical moment.    *)
(***************************************************************************)
MomentCenter(f, cx, cy, tz) == <<cy * f[3], -cx * f[3], tz>>
MomentFrame(s, f, cx, cy, tz) == VAdd(MomentCenter(f, cx, cy, tz), Cross(Center(s), f))
Active(s, cx, cy) == { i \in 1..4 : Ratio(s, cx, cy, i) # 0 }
Tol == 3
ForcesOk(s, f, cx, cy, tz, out) ==
  IF f[3] <= 0 THEN \A i \in 1..4 : out[i] = Zero3
  ELSE
  /\ \A i \in 1..4 : AbsI(out[i][3] * s.l * s.d - f[3] * (Q \div 4) * Ratio(s, cx, cy, i)) <= Tol * s.l * s.d
  /\ \A k \in 1..3 : Near(out[1][k] + out[2][k] + out[3][k] + out[4][k], Q * f[k], 4 * Tol)
  /\ LET m == MomentFrame(s, f, cx, cy, tz)
         M(k) == SumTo(LAMBDA i : Cross(Corner(s, i), out[i])[k], 4)
     IN /\ Cardinality(Active(s, cx, cy)) > 1 => \A k \in 1..3 : Near(M(k), Q * m[k], 600)
        \* all on one corner: only the vertical moment may differ
        /\ Cardinality(Active(s, cx, cy)) = 1 =>
             \A i \in 1..4 : IF i \in Active(s, cx, cy) THEN \A k \in 1..3 : Near(out[i][k], Q * f[k], Tol) ELSE out[i] = Zero3
  \* corners that carry no normal force carry no force at all when at most two corners are loaded
     /\ Cardinality(Active(s, cx, cy)) <= 2 => \A i \in (1..4) \ Active(s, cx, cy) : out[i] = Zero3
RatiosOk(s, cx, cy, out) == \A i \in 1..4 : AbsI(out[i] * s.l * s.d - (Q \div 4) * Ratio(s, cx, cy, i)) <= Tol * s.l * s.d
=============================================================================
