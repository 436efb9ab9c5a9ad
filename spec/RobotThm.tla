-------------------------------- MODULE RobotThm --------------------------------
(***************************************************************************)
(* Facts about the robot specification, checked over all joint angles of a *)
(* fixed four link tree, several base orientations and every choice of     *)
(* floating base: rotations stay rotations, the jets along a joint are the *)
(* exact quarter turn differences, velocities are the derivatives of poses *)
(* along the motion, moving uniformly adds no angular momentum about the   *)
(* centre of mass, and gravity torques are the slope of the potential      *)
(* energy.                                                                 *)
(***************************************************************************)
EXTENDS Robot
Rx == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
Rz == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
L(p, ax, sg, o, off, rr, m, c, I) == [parent |-> p, ax |-> ax, sg |-> sg, o |-> o, off |-> off, rr |-> rr, m |-> m, c |-> c, I |-> I]
Rob == [links |-> <<L(0, 1, 1, <<0,0,0>>, <<0,0,0>>, Id3, 2, <<0,1,-1>>, <<<<4,1,0>>, <<1,5,-1>>, <<0,-1,3>>>>),
                    L(1, 1, -1, <<1,0,1>>, <<1,-1,0>>, Rz, 1, <<1,0,0>>, <<<<3,0,1>>, <<0,4,0>>, <<1,0,5>>>>),
                    L(2, 2, 1, <<0,1,-1>>, <<-1,1,1>>, Rx, 2, <<0,-1,1>>, <<<<5,1,1>>, <<1,3,0>>, <<1,0,4>>>>),
                    L(1, 3, 1, <<0,-1,0>>, <<1,1,-1>>, Id3, 1, <<1,1,0>>, <<<<4,0,0>>, <<0,4,1>>, <<0,1,3>>>>)>>,
        frames |-> <<[link |-> 3, R |-> Rx, p |-> <<1, -1, 0>>]>>]
NoSeed == <<"none", 0>>
VARIABLES st, B, j
vars == <<st, B, j>>
CONSTANTS Spins, Bases
Init == /\ st \in {[bp |-> <<1, 2, -1>>, q |-> q, s |-> <<0, 0, 0>>, bv |-> <<1, -1, 2>>, bqd |-> qd, sd |-> <<2, -1, 1>>]
                   : q \in {<<1,0,0,0>>, <<1,-1,1,1>>, <<0,0,2,0>>}, qd \in {<<0,1,-1,2>>, <<1,0,0,1>>}}
        /\ st.bqd[1] \in Spins /\ B \in Bases /\ j \in 1..3
Next == \E i \in 1..3 : st' = [st EXCEPT !.s[i] = (@ + 1) % 4] /\ UNCHANGED <<B, j>>
Spec == Init /\ [][Next]_vars
Val(p) == IF p = Z THEN <<0, 0, 0>> ELSE p
MVal(p) == IF p = Z THEN <<<<0,0,0>>, <<0,0,0>>, <<0,0,0>>>> ELSE p
K0 == Kin(Rob, B, st, NoSeed, NoSeed)
Turn(d) == Kin(Rob, B, [st EXCEPT !.s[j] = (@ + d) % 4], NoSeed, NoSeed)
KJ == Kin(Rob, B, st, <<"s", j>>, <<"s", j>>)
Frames == 1..5
Rotations == \A f \in Frames : LET R == FramePose(Rob, K0, f).R[1] IN MM(R, Tr3(R)) = Id3 /\ R[1] = Cross(R[2], R[3])
R4Ok == LET R == BaseRot4(st.q, 0, 0)[1] IN MM(R, Tr3(R)) = MScl(16, Id3) /\ VScl(4, R[1]) = Cross(R[2], R[3])
JointDerivatives == LET up == Turn(1)  dn == Turn(3)  op == Turn(2) IN \A f \in Frames :
  LET F(K) == FramePose(Rob, K, f)  x == FramePose(Rob, KJ, f) IN
  /\ MScl(2, MVal(x.R[2])) = MAdd(F(up).R[1], MScl(-1, F(dn).R[1]))
  /\ MScl(2, MVal(x.R[4])) = MAdd(F(op).R[1], MScl(-1, F(K0).R[1]))
  /\ VScl(2, Val(x.p[2])) = VAdd(F(up).p[1], VScl(-1, F(dn).p[1]))
  /\ VScl(2, Val(x.p[4])) = VAdd(F(op).p[1], VScl(-1, F(K0).p[1]))
\* velocities relative to the base are the derivatives of the poses along the joint motion
Along(g(_), zero, add(_, _), scl(_, _)) == FoldLeft(LAMBDA acc, i : add(acc, scl(st.sd[i], g(i))), zero, <<1, 2, 3>>)
Velocities == \A f \in Frames :
  LET D(i) == FramePose(Rob, Kin(Rob, B, st, <<"s", i>>, NoSeed), f)
      lk == LinkOfFrame(Rob, f)
      x == FramePose(Rob, K0, f)
      v == Val(RelVel(Rob, B, K0, st, NoSeed, NoSeed, lk, x.p)[1])
      om == Val(RelOmega(Rob, B, K0, st, NoSeed, NoSeed, lk)[1])
  IN /\ v = Along(LAMBDA i : Val(D(i).p[2]), <<0,0,0>>, VAdd, VScl)
     /\ MM(SkewOf(om), x.R[1]) = Along(LAMBDA i : MVal(D(i).R[2]), MVal(Z), MAdd, MScl)
\* the base rotation turns with the base angular velocity: 16 dR4 = R4 skew(om16)
BaseSpin == Sq4(st.q) = 1 => LET om == Val(BaseOmega16(st, NoSeed, NoSeed)[1])
                dR(k) == MVal(BaseRot4(st.q, k, 0)[2])
                dot == FoldLeft(LAMBDA acc, k : MAdd(acc, MScl(st.bqd[k], dR(k))), MVal(Z), <<1, 2, 3, 4>>)
            IN MScl(16, dot) = MM(BaseRot4(st.q, 0, 0)[1], SkewOf(om))
Euler == FoldLeft(LAMBDA acc, k : MAdd(acc, MScl(st.q[k], MVal(BaseRot4(st.q, k, 0)[2]))), MVal(Z), <<1, 2, 3, 4>>) = MVal(Z)
Om(s) == BaseOmega16(s, NoSeed, NoSeed)
AngOf(s) == Val(AngC16(Rob, B, K0, s, NoSeed, NoSeed, Om(s))[1])
Drift == AngOf(st) = AngOf([st EXCEPT !.bv = <<3, 5, -4>>])
\* M times the velocity of the centre of mass is the linear momentum
ComMotion == LET D(i) == Val(MCom(Rob, Kin(Rob, B, st, <<"s", i>>, NoSeed))[2])
                 rel == Along(LAMBDA i : D(i), <<0,0,0>>, VAdd, VScl)
                 m == Val(MCom(Rob, K0)[1])
             IN Val(Lin16(Rob, B, K0, st, NoSeed, NoSeed, Om(st))[1]) =
                VAdd(VScl(16, VAdd(VScl(Mass(Rob), st.bv), rel)), Cross(Val(Om(st)[1]), m))
\* the momentum does not depend on which link is called the base when the base does not move
StillBase == [st EXCEPT !.bv = <<0,0,0>>, !.bqd = <<0,0,0,0>>, !.sd = <<0,0,0>>]
AtRest == AngOf(StillBase) = <<0, 0, 0>>
\* holding torques are the derivative of the potential energy -M g.c of the configuration
Gravity == LET g4 == <<4, -8, -12>>
               slope == (Val(MCom(Rob, Kin(Rob, B, st, <<"s", j>>, NoSeed))[2]))
               t == Torque4(Rob, B, K0, Const(g4), <<>>, j + 1)[1]
           IN (IF t = Z THEN 0 ELSE t[1]) = -Dot3(g4, slope)
\* and forces at points do work along the motion of their points
PointLoad == \A f \in Frames :
   LET d == FramePose(Rob, Kin(Rob, B, st, <<"s", j>>, NoSeed), f).p[2]
       F == <<4, 8, -4>>
       t == Torque4(Rob, B, K0, Const(<<0, 0, 0>>), <<[link |-> LinkOfFrame(Rob, f), p |-> FramePose(Rob, K0, f).p, f |-> Const(F)]>>, j + 1)[1]
   IN (IF t = Z THEN 0 ELSE t[1]) = -Dot3(F, Val(d))
=============================================================================
