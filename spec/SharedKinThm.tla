------------------------------ MODULE SharedKinThm ------------------------------
(***************************************************************************)
(* Facts about the answers SharedKin prescribes, on the robot of RobotThm  *)
(* for all joint angles and floating bases: velocities and momenta are the *)
(* Jacobians times the motion, the mass matrix is symmetric and its base   *)
(* rows are the momentum Jacobian, the base sees the sum of all loads,     *)
(* torques agree with Robot and their derivatives with exact differences.  *)
(***************************************************************************)
EXTENDS RobotThm
SK == INSTANCE SharedKin
O == [rob |-> Rob, base |-> B, g |-> <<100, -200, -300>>, tol |-> 1]
Ext == <<<<1, 0, -2, 0, 1, 0>>, <<0, 1, 1, -1, 0, 2>>, <<2, 0, 0, 0, 0, 1>>, <<0, -1, 0, 1, 1, 0>>>>
Q(kind, rep, col, fr) == [kind |-> kind, rep |-> rep, col |-> col, fr |-> fr, ref |-> 2, ext |-> Ext]
Ask(kind, rep, col, fr) == SK!Answer(O, Q(kind, rep, col, fr), st)
Nu16 == VScl(16, st.bv) \o Val(Om(st)[1]) \o <<16 * st.sd[1], 16 * st.sd[2], 16 * st.sd[3]>>
Times(col(_), nu) == FoldLeft(LAMBDA acc, k : LET c == col(k) IN [i \in 1..6 |-> acc[i] + nu[k] * c[i]] @@ <<>>, <<0, 0, 0, 0, 0, 0>>, [k \in 1..9 |-> k])
Scl6(k, v) == <<k * v[1], k * v[2], k * v[3], k * v[4], k * v[5], k * v[6]>>
VelIsJac == \A f \in {3, 5} : Scl6(64, Ask("vel", "body", 0, f)) = Times(LAMBDA k : Ask("jac", "body", k, f), Nu16)
MomIsJac == Scl6(64, Ask("mom", "body", 0, 1)) = Times(LAMBDA k : Ask("momj", "body", k, 1), Nu16)
MassSymmetric == \A a \in 1..9 : Ask("mm", "body", a, 1)[((a + 2) % 9) + 1] = Ask("mm", "body", ((a + 2) % 9) + 1, 1)[a]
MassBase == \A rep \in {"body", "mixed", "inertial"} : SubSeq(Ask("mm", rep, j + 6, 1), 1, 6) = Ask("momj", rep, j + 6, 1)
\* the relative Jacobian with respect to the base is the one of the frame, in body coordinates
RelIsJac == LET q == [Q("relj", "body", j, 5) EXCEPT !.ref = B] IN Scl6(64, SK!Answer(O, q, st)) = Ask("jac", "body", j + 6, 5)
\* linear momentum is M times the velocity of the centre of mass
ComIsMom == Ask("comj", "mixed", j + 6, 1) = SubSeq(Ask("momj", "mixed", j + 6, 1), 1, 3)
Stat(s) == SK!Answer(O, Q("stat", "body", j, 1), s)
G4 == LET R == BaseRot4(st.q, 0, 0)[1] IN MV(Tr3(R), O.g)
TorqueGravity == LET none == [Q("stat", "body", j, 1) EXCEPT !.ext = <<<<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>>>] IN
  SK!Answer(O, none, st)[6 + j] = Scal(Torque4(Rob, B, K0, Const(G4), <<>>, j + 1)[1])
TorqueSlope == 2 * Ask("statd", "body", j, 1)[1] = Stat([st EXCEPT !.s[j] = (@ + 1) % 4])[7] - Stat([st EXCEPT !.s[j] = (@ + 3) % 4])[7]
BaseWrench == LET F == FoldLeft(LAMBDA acc, i : VAdd(acc, VAdd(VScl(Rob.links[i].m, G4), VScl(400, MV(K0[i].R[1], SubSeq(Ext[i], 1, 3))))), <<0, 0, 0>>, <<1, 2, 3, 4>>) IN
  SubSeq(Stat(st), 1, 3) = VScl(-1, F)
\* the wrenches of the links next to the base, and what acts on the base itself, make up the base wrench
JointWrench == LET w == SK!Answer(O, Q("statl", "body", j, 4), st) IN B # 4 =>
  Scal(SK!TorqueOf(SK!KinOf(O, st, SK!NoSeed), G4, Ext, 4)[1]) =
     Dot3(K0[4].ax[1], VAdd(MV(K0[4].R[1], SubSeq(w, 4, 6)), Cross(VAdd(K0[4].p[1], VScl(-1, K0[4].o[1])), MV(K0[4].R[1], SubSeq(w, 1, 3)))))
=============================================================================
