---------------------------------- MODULE Start ----------------------------------
(***************************************************************************)
(* Property C25: the states a plan starts from.                            *)
(*   fill: the robot stands on its left sole, which is put at the origin;  *)
(*         joints as asked, at rest, at time zero; the contact points lie  *)
(*         on the soles, the forces are vertical, sum up to the weight,    *)
(*         are shared between the feet in inverse proportion to the        *)
(*         lateral distance of the centre of mass, and keep the lateral    *)
(*         balance moment of each foot (parallel soles).                   *)
(*   min:  the base is moved vertically until the lowest contact point     *)
(*         lies on the ground; everything else of the robot stays.         *)
(* Positions are recorded times 8, the centre of mass times 8 Mass,        *)
(* rotations times 4, forces times 1000.                                   *)
(***************************************************************************)
EXTENDS Robot
NoSeed == <<"none", 0>>
NoState == [known |-> FALSE]
NoWorld == [ok |-> FALSE]
NSt(s) == [bp |-> <<0, 0, 0>>, q |-> <<1, 0, 0, 0>>, s |-> s, bv |-> <<0, 0, 0>>, bqd |-> <<0, 0, 0, 0>>, sd |-> [i \in 1..Len(s) |-> 0]]
Force3(f) == f @@ <<>>
NPt(w) == Len(w.pts[1])
\* poses in the coordinates of link B
KinB(w, B, s) == Kin(w.robot, B, NSt(s), NoSeed, NoSeed)
PoseF(w, K, f) == LET x == FramePose(w.robot, K, f) IN [R |-> x.R[1], p |-> x.p[1]]
PointsIn(w, K, side) == LET f == PoseF(w, K, w.fr[side]) IN FoldLeft(LAMBDA acc, p : Append(acc, VAdd(f.p, MV(f.R, p))), <<>>, w.pts[side])
M3(m, v) == MV(m, v)
Abs0(a) == IF a < 0 THEN -a ELSE a
Near0(a, b, tol) == Abs0(a - b) <= tol
Sum(f(_), n) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])
\* the configuration after fill, exactly
Filled(w, s) ==
  LET K == KinB(w, 1, s)
      L == PoseF(w, K, w.fr[1])  RT == Tr3(L.R)
      W(p) == MV(RT, VAdd(p, VScl(-1, L.p)))
      B == PoseF(w, K, w.fb)
      pts(side) == FoldLeft(LAMBDA acc, p : Append(acc, VScl(8, W(p))), <<>>, PointsIn(w, K, side))
  IN [s |-> s, t |-> 0, mom |-> <<0, 0, 0, 0, 0, 0>>,
      com |-> VScl(8, MV(RT, VAdd(MCom(w.robot, K)[1], VScl(-Mass(w.robot), L.p)))),
      bp |-> VScl(8, W(B.p)), R |-> MScl(4, MM(RT, B.R)), lp |-> pts(1), rp |-> pts(2)]
Fields == {"s", "t", "mom", "com", "bp", "R", "lp", "rp"}
Right(w, s) == LET K == KinB(w, 1, s)  L == PoseF(w, K, w.fr[1])  F == PoseF(w, K, w.fr[2])  RT == Tr3(L.R) IN
               [R |-> MM(RT, F.R), p |-> MV(RT, VAdd(F.p, VScl(-1, L.p)))]
Tol == 8
\* the forces of a filled state; x the exact part, out the recorded forces
ForcesOk(w, s, x, out) ==
  LET N == -10 * w.g * Mass(w.robot)              \* weight, times 1000
      M == Mass(w.robot)
      fz(side) == Sum(LAMBDA i : out[side][i][3], NPt(w))
      r == Right(w, s)
      dl == Abs0(x.com[2])   dr == Abs0(x.com[2] - 8 * M * r.p[2])
      moment(side, axis, about) == Sum(LAMBDA i : out[side][i][3] * (M * (IF side = 1 THEN x.lp ELSE x.rp)[i][axis] - about), NPt(w))
      load == IF N > 0 THEN N \div 1000 ELSE 0
      mtol == 16 * (NPt(w) + 1) * (Abs0(x.com[1]) + 8 * M * 30)
  IN /\ \A side \in 1..2 : \A i \in 1..NPt(w) : Near0(out[side][i][1], 0, 1) /\ Near0(out[side][i][2], 0, 1)
     /\ Near0(fz(1) + fz(2), IF N > 0 THEN N ELSE 0, Tol)
     /\ N > 0 => IF dl + dr = 0 THEN fz(1) >= -Tol /\ fz(2) >= -Tol   \* aligned: any sharing is balanced
                 ELSE Near0(fz(1) * ((dl + dr) \div 8), N * (dr \div 8), 2 * Tol * ((dl + dr) \div 8 + 1))
     \* each sole carries its share below the centre of mass, seen from the side
     /\ Near0(moment(1, 1, x.com[1]) \div 8, 0, mtol) /\ Near0(moment(1, 2, 0) \div 8, 0, mtol)
     /\ r.R = Id3 => Near0(moment(2, 1, x.com[1]) \div 8, 0, mtol) /\ Near0(moment(2, 2, 8 * M * r.p[2]) \div 8, 0, mtol)
CanFill(w, s) == w.ok /\ w.bad = 0 /\ Len(s) = NL(w.robot) - 1 /\ NPt(w) = 4 /\ w.foot[1].l > 0 /\ w.foot[2].l > 0
CanMin(w, x) == w.ok /\ w.bad = 0 /\ Len(x.s) = NL(w.robot) - 1
\* min: exact part
Lowered(w, x) ==
  LET K == KinB(w, w.fb, x.s)
      at(p) == VAdd(x.bp, VScl(2, MV(x.R, p)))
      lp == FoldLeft(LAMBDA acc, p : Append(acc, at(p)), <<>>, PointsIn(w, K, 1))
      rp == FoldLeft(LAMBDA acc, p : Append(acc, at(p)), <<>>, PointsIn(w, K, 2))
      low == FoldLeft(LAMBDA acc, p : IF p[3] < acc THEN p[3] ELSE acc, lp[1][3], lp \o rp)
      dn(p) == [p EXCEPT ![3] = @ - low]
      bp == dn(x.bp)
  IN [x EXCEPT !.bp = bp, !.lp = FoldLeft(LAMBDA acc, p : Append(acc, dn(p)), <<>>, lp), !.rp = FoldLeft(LAMBDA acc, p : Append(acc, dn(p)), <<>>, rp),
               !.com = VAdd(VScl(Mass(w.robot), bp), VScl(2, MV(x.R, MCom(w.robot, K)[1])))]
\* a state as the user puts it together (contact points and centre of mass are nonsense)
PutState(w, c) ==
  LET n == NPt(w)
      f(side) == FoldLeft(LAMBDA acc, i : Append(acc, <<1000 * (c.f + 10 * (side - 1) + i - 1), 1000 * (c.f + 10 * (side - 1) + i), 1000 * (c.f + 10 * (side - 1) + i + 1)>>), <<>>, [i \in 1..n |-> i])
      junk == FoldLeft(LAMBDA acc, i : Append(acc, <<-56, -56, -56>>), <<>>, [i \in 1..n |-> i])
  IN [known |-> TRUE, s |-> c.s, t |-> c.t, mom |-> c.mom, com |-> <<>>, bp |-> <<8 * c.bp[1], 8 * c.bp[2], c.bp[3]>>, R |-> BaseRot4(c.q, 0, 0)[1], lp |-> junk, rp |-> junk, lf |-> f(1), rf |-> f(2)]
Obs(e) == [s |-> e.s, t |-> e.t, mom |-> e.mom, com |-> e.com, bp |-> e.bp, R |-> e.R, lp |-> e.lp, rp |-> e.rp]
Exact(x) == [f \in Fields |-> x[f]]
Check(sys, e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> e.ret = 1
    [] c.op = "world" -> e.ret = 1 - c.bad
    [] c.op = "put" -> e.ret = 1 /\ LET x == PutState(sys.w, c) IN
                       /\ \A k \in Fields \ {"com"} : Obs(e)[k] = x[k]
                       /\ e.lf = x.lf /\ e.rf = x.rf
    [] c.op = "fill" -> IF ~CanFill(sys.w, c.s) THEN e.ret = 0
                        ELSE e.ret = 1 /\ LET x == Filled(sys.w, c.s) IN
                             /\ \A k \in Fields : Obs(e)[k] = x[k]
                             /\ Len(e.lf) = NPt(sys.w) /\ Len(e.rf) = NPt(sys.w)
                             /\ ForcesOk(sys.w, c.s, x, <<e.lf, e.rf>>)
    [] c.op = "min" -> IF ~CanMin(sys.w, sys.x) THEN e.ret = 0
                       ELSE e.ret = 1 /\ LET x == Lowered(sys.w, sys.x) IN
                            /\ \A k \in Fields : Obs(e)[k] = x[k]
                            /\ e.lf = sys.x.lf /\ e.rf = sys.x.rf
                            /\ e.low >= 0 /\ e.low <= 11
    [] OTHER -> FALSE
Apply(sys, e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> [w |-> NoWorld, x |-> NoState]
    [] c.op = "world" -> [w |-> c @@ [ok |-> TRUE], x |-> NoState]
    [] c.op = "put" -> [sys EXCEPT !.x = PutState(sys.w, c)]
    [] c.op = "fill" -> [sys EXCEPT !.x = IF e.ret = 1 THEN [known |-> TRUE, lf |-> e.lf, rf |-> e.rf] @@ Filled(sys.w, c.s) ELSE NoState]
    [] c.op = "min" -> [sys EXCEPT !.x = IF e.ret = 1 THEN [known |-> TRUE, lf |-> e.lf, rf |-> e.rf] @@ Exact(Lowered(sys.w, sys.x)) ELSE NoState]
    [] OTHER -> sys
=============================================================================
