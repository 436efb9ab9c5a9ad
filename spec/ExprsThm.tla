-------------------------------- MODULE ExprsThm --------------------------------
(***************************************************************************)
(* Facts about the quantities Exprs prescribes, on the robot of RobotThm:  *)
(* adjoints are inverse to each other and dual to those of wrenches,       *)
(* velocities are Jacobians times joint velocities, absolute velocity and  *)
(* momentum agree with SharedKin, the composite inertia is the sum of the  *)
(* transformed link inertias and a block of the mass matrix, derivatives   *)
(* are exact differences, products of quaternion components are those of a *)
(* quaternion.                                                             *)
(***************************************************************************)
EXTENDS SharedKinThm
XE == INSTANCE Exprs
Tws == <<<<1, 0, -1, 2, 1, 0>>, <<0, 2, 1, -1, 1, 1>>, <<0, 0, 0, 0, 0, 0>>>>
Dqs == <<<<1, 1, 0, 0>>, <<0, 0, 1, 0>>>>
Sy == [rob |-> Rob, base |-> B, tws |-> Tws, dqs |-> Dqs]
H(kind, fr, ref, tw, steps) == [kind |-> kind, fr |-> fr, ref |-> ref, tw |-> tw, k |-> 1, j |-> j, steps |-> steps]
VE(kind, fr, ref, tw, steps) == XE!ValueOf(Sy, H(kind, fr, ref, tw, steps), st)
VA(kind, fr, ref, tw, steps, s) == XE!ValueOf(Sy, H(kind, fr, ref, tw, steps), s)
At(v, r, c) == v[6 * (c - 1) + r]
Prod6(x, y) == [n \in 1..36 |-> LET r == ((n - 1) % 6) + 1  c == ((n - 1) \div 6) + 1 IN
                 At(x, r, 1) * At(y, 1, c) + At(x, r, 2) * At(y, 2, c) + At(x, r, 3) * At(y, 3, c) + At(x, r, 4) * At(y, 4, c) + At(x, r, 5) * At(y, 5, c) + At(x, r, 6) * At(y, 6, c)] @@ <<>>
Eye6 == [n \in 1..36 |-> IF (n - 1) % 7 = 0 THEN 1 ELSE 0] @@ <<>>
Tr6(x) == [n \in 1..36 |-> x[6 * ((n - 1) % 6) + ((n - 1) \div 6) + 1]] @@ <<>>
AdjInverse == Prod6(VE("adj", 5, 2, 0, <<>>), VE("adj", 2, 5, 0, <<>>)) = Eye6
AdjChain == Prod6(VE("adj", 3, 2, 0, <<>>), VE("adj", 4, 3, 0, <<>>)) = VE("adj", 4, 2, 0, <<>>)
AdjDual == VE("adw", 5, 2, 0, <<>>) = Tr6(VE("adj", 2, 5, 0, <<>>))
RelVelIsRelJac == LET J == VE("rj", 5, 4, 0, <<>>) IN
  VE("rv", 5, 4, 0, <<>>) = [r \in 1..6 |-> At(J, r, 1) * st.sd[1] + At(J, r, 2) * st.sd[2] + At(J, r, 3) * st.sd[3]] @@ <<>>
AbsIsVel == VE("av", 5, 1, 0, <<>>) = Ask("vel", "body", 0, 5)
MomIsMom == VE("mom", 1, 1, 0, <<>>) = Ask("mom", "body", 0, 1)
AbsSlope == VE("av", 5, 1, 0, <<<<"s", 1>>>>) = XE!FlatE(3, LAMBDA k : SK!Answer(O, [Q("veld", "body", k, 5) EXCEPT !.col = k], st))
CrbiIsMass == Scl6(4, SubSeq(VE("crbi", 1, 1, 0, <<>>), 6 * j - 5, 6 * j)) = SubSeq(Ask("mm", "body", j, 1), 1, 6)
CrbiIsSum == LET part(l) == Prod6(VE("lib", l, 1, 0, <<>>), VE("adj", B, l, 0, <<>>)) IN
  VE("crbi", 1, 1, 0, <<>>) = [n \in 1..36 |-> 16 * (part(1)[n] + part(2)[n] + part(3)[n] + part(4)[n])] @@ <<>>
\* momentum is the composite inertia times the twist, when the joints rest
MomIsCrbi == LET rest == [st EXCEPT !.sd = <<0, 0, 0>>]  C == VE("crbi", 1, 1, 0, <<>>)  v == Tws[1] IN
  VA("mom", 1, 1, 1, <<>>, rest) = [r \in 1..6 |-> At(C, r, 1) * v[1] + At(C, r, 2) * v[2] + At(C, r, 3) * v[3] + At(C, r, 4) * v[4] + At(C, r, 5) * v[5] + At(C, r, 6) * v[6]] @@ <<>>
Turned(s, k) == [s EXCEPT !.s[j] = (@ + k) % 4]
Col(v, n, k) == SubSeq(v, n * (k - 1) + 1, n * k)
Slope(kind, n, pre, c) ==   \* linear in the sine and the cosine of the angle
  [i \in 1..n |-> 2 * Col(VE(kind, 5, B, 0, Append(pre, <<"s", c>>)), n, j)[i]] @@ <<>>
  = [i \in 1..n |-> Col(VA(kind, 5, B, 0, pre, Turned(st, 1)), n, c)[i] - Col(VA(kind, 5, B, 0, pre, Turned(st, 3)), n, c)[i]] @@ <<>>
Slopes == Slope("rp", 3, <<>>, 1) /\ Slope("com", 3, <<>>, 1) /\ Slope("rr", 3, <<>>, 2) /\ Slope("rp", 3, <<<<"s", 1>>>>, 2) /\ Slope("com", 3, <<<<"s", 1>>>>, 3) /\ Slope("wp", 3, <<>>, 1)
RankOne == LET p == VE("qe", 5, 1, 0, <<>>) IN
  /\ p[1] * p[5] = p[2] * p[2] /\ p[1] * p[8] = p[3] * p[3] /\ p[1] * p[10] = p[4] * p[4] /\ p[5] * p[8] = p[6] * p[6] /\ p[8] * p[10] = p[9] * p[9]
  /\ p[1] + p[5] + p[8] + p[10] = 64
MotionSubspace == LET parent == Rob.links[j + 1].parent IN VE("msv", j + 1, parent, 0, <<>>) = Col(VE("rj", j + 1, parent, 0, <<>>), 6, j)
\* a smaller set of states
Few == st.q = <<1,-1,1,1>> /\ st.s[3] = 0 /\ st.s[2] \in {0, 1} /\ st.bqd[1] = 0
=============================================================================
