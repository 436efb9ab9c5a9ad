---------------------------------- MODULE Robot ----------------------------------
(***************************************************************************)
(* The floating base robot: a tree of links with revolute joints along     *)
(* coordinate axes, integer geometry, joint angles in quarter turns, base  *)
(* quaternions whose squared norm is 1, 2 or 4.  Every kinematic and       *)
(* dynamic quantity is a jet (module Jets), computed from the textbook     *)
(* formulas in base coordinates:                                           *)
(*   pose of a link:        product of joint transforms along the path     *)
(*   angular velocity:      base one plus axis times joint velocity        *)
(*   velocity of an origin: base one plus omega x p plus axis x (p - o) sd *)
(*   momentum:              sum of m v, of p x m v + R I R' omega          *)
(* Scales: base rotation 4, base angular velocity 16.                      *)
(*                                                                         *)
(* rob: [links |-> seq of [parent, ax, sg, o, off, rr, m, c, I],           *)
(*       frames |-> seq of [link, R, p]]   (frame k <= Len(links) is the   *)
(*       frame of link k, the additional ones follow)                      *)
(* st:  [bp, q, s, bv, bqd, sd]; a seed is <<kind, index>>, kinds "bp" "q" *)
(* "s" "bv" "qd" "sd" (others do not concern the robot)                    *)
(***************************************************************************)
EXTENDS Jets, FiniteSets, TLC, SequencesExt

Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Axis(ax, sg) == VScl(sg, Unit3(ax))
SkewOf(v) == <<<<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>>>>
C4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
S4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
\* rotation by k quarter turns about the unit axis u (Rodrigues)
RotU(u, k) == LET K == SkewOf(u) IN MAdd(Id3, MAdd(MScl(S4(k), K), MScl(1 - C4(k), MM(K, K))))
JRot(u, k, sa, sb) == LET K == SkewOf(u)  R == RotU(u, k)  D == MM(K, R) IN
  <<R, IF sa THEN D ELSE Z, IF sb THEN D ELSE Z, IF sa /\ sb THEN MM(K, D) ELSE Z>>
Idx(seed, kind) == IF seed[1] = kind THEN seed[2] ELSE 0

\* ----------------------------------------------------------------- the base
Sq4(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Quad(a, b) == \* symmetric bilinear form whose diagonal is |q|^2 R(q); times 1 (B(q,q)) : entries (B(a,b))
  LET s(i, j) == a[i] * b[j] + a[j] * b[i] IN   \* 2 a_i a_j on the diagonal
  << <<a[1]*b[1] + a[2]*b[2] - a[3]*b[3] - a[4]*b[4], s(2,3) - s(1,4), s(2,4) + s(1,3)>>,
     <<s(2,3) + s(1,4), a[1]*b[1] - a[2]*b[2] + a[3]*b[3] - a[4]*b[4], s(3,4) - s(1,2)>>,
     <<s(2,4) - s(1,3), s(3,4) + s(1,2), a[1]*b[1] - a[2]*b[2] - a[3]*b[3] + a[4]*b[4]>> >>
E4(k) == <<IF k = 1 THEN 1 ELSE 0, IF k = 2 THEN 1 ELSE 0, IF k = 3 THEN 1 ELSE 0, IF k = 4 THEN 1 ELSE 0>>
Div(k, d) == IF k % d = 0 THEN k \div d ELSE Assert(FALSE, "not divisible")
VDiv(v, d) == IF v = Z THEN Z ELSE <<Div(v[1], d), Div(v[2], d), Div(v[3], d)>>
MDiv(m, d) == IF m = Z THEN Z ELSE <<VDiv(m[1], d), VDiv(m[2], d), VDiv(m[3], d)>>
\* 4 R(q): R = Quad(q,q)/|q|^2
BaseRot4(q, ia, ib) ==
  LET n == Sq4(q)
      W == 64 \div n   W2 == 64 \div (n * n)   W3 == 64 \div (n * n * n)
      Q0 == Quad(q, q)
      Qa == IF ia = 0 THEN Z ELSE MScl(2, Quad(q, E4(ia)))
      Qb == IF ib = 0 THEN Z ELSE MScl(2, Quad(q, E4(ib)))
      Qab == IF ia = 0 \/ ib = 0 THEN Z ELSE MScl(2, Quad(E4(ia), E4(ib)))
      Wa == IF ia = 0 THEN 0 ELSE -2 * q[ia] * W2
      Wb == IF ib = 0 THEN 0 ELSE -2 * q[ib] * W2
      Wab == IF ia = 0 \/ ib = 0 THEN 0 ELSE (IF ia = ib THEN -2 * W2 ELSE 0) + 8 * q[ia] * q[ib] * W3
      full == << MScl(W, Q0),
                 IF ia = 0 THEN Z ELSE MAdd(MScl(Wa, Q0), MScl(W, Qa)),
                 IF ib = 0 THEN Z ELSE MAdd(MScl(Wb, Q0), MScl(W, Qb)),
                 IF ia = 0 \/ ib = 0 THEN Z ELSE MAdd(MAdd(MScl(Wab, Q0), MScl(W, Qab)), MAdd(MScl(Wa, Qb), MScl(Wb, Qa))) >>
  IN JLin(LAMBDA m : MDiv(m, 16), full)
\* 32 q/|q| for |q| = 1, 2
QHat32(q, ia, ib) ==
  LET n == Sq4(q)
      V == IF n = 1 THEN 32 ELSE 16   V3 == IF n = 1 THEN 32 ELSE 4   V5 == IF n = 1 THEN 32 ELSE 1
      d(i, j) == IF i = j THEN 1 ELSE 0
      first(i, k) == d(i, k) * V - q[k] * q[i] * V3
      second(i, j, k) == -d(i, k) * q[j] * V3 - d(j, k) * q[i] * V3 - d(i, j) * q[k] * V3 + 3 * q[i] * q[j] * q[k] * V5
  IN << <<q[1] * V, q[2] * V, q[3] * V, q[4] * V>>,
        IF ia = 0 THEN Z ELSE <<first(ia, 1), first(ia, 2), first(ia, 3), first(ia, 4)>>,
        IF ib = 0 THEN Z ELSE <<first(ib, 1), first(ib, 2), first(ib, 3), first(ib, 4)>>,
        IF ia = 0 \/ ib = 0 THEN Z ELSE <<second(ia, ib, 1), second(ia, ib, 2), second(ia, ib, 3), second(ia, ib, 4)>> >>
\* G(q) qd: half the body angular velocity: q0 v - q0' ... = -qv qd0 + q0 qdv - qv x qdv
GOf(q, d) == IF q = Z \/ d = Z THEN Z ELSE
  LET qv == <<q[2], q[3], q[4]>>  dv == <<d[2], d[3], d[4]>> IN
  VAdd(VScl(-d[1], qv), VAdd(VScl(q[1], dv), VScl(-1, Cross(qv, dv))))
Var4(v, ka, kb) == <<v, IF ka = 0 THEN Z ELSE E4(ka), IF kb = 0 THEN Z ELSE E4(kb), Z>>
BaseOmega16(st, a, b) == JBil(GOf, VAdd, QHat32(st.q, Idx(a, "q"), Idx(b, "q")), Var4(st.bqd, Idx(a, "qd"), Idx(b, "qd")))

\* ------------------------------------------------------- kinematics in link 1
NL(rob) == Len(rob.links)
\* poses of the links in link 1 and the quantities of their joints in link 1: [R, p, o, ax]
Poses(rob, st, a, b) ==
  FoldLeft(LAMBDA acc, i :
    LET k == rob.links[i] IN
    IF k.parent = 0 THEN Append(acc, [R |-> Const(Id3), p |-> Const(<<0, 0, 0>>), o |-> Const(<<0, 0, 0>>), ax |-> Const(<<0, 0, 0>>)])
    ELSE LET P == acc[k.parent]
             u == Axis(k.ax, k.sg)
             J == JRot(u, st.s[i - 1], Idx(a, "s") = i - 1, Idx(b, "s") = i - 1)
             o == JVAdd(P.p, JMV(P.R, Const(k.o)))
             RJ == JMM(P.R, J)
         IN Append(acc, [R |-> JMM(RJ, Const(k.rr)), p |-> JVAdd(o, JMV(RJ, Const(VAdd(k.off, VScl(-1, k.o))))),
                         o |-> o, ax |-> JMV(P.R, Const(u))]),
    <<>>, [i \in 1..NL(rob) |-> i])
RECURSIVE PathOf(_, _)
PathOf(rob, i) == IF rob.links[i].parent = 0 THEN <<>> ELSE PathOf(rob, rob.links[i].parent) \o <<i>>
LinkOfFrame(rob, f) == IF f <= NL(rob) THEN f ELSE rob.frames[f - NL(rob)].link
\* everything about the robot at a state, in the coordinates of the floating base (link B)
Kin(rob, B, st, a, b) ==
  LET L == Poses(rob, st, a, b)
      BT == JTr(L[B].R)
      rel(v) == JMV(BT, JVSub(v, L[B].p))
      K == IF B = 1 THEN L
           ELSE FoldLeft(LAMBDA acc, i : Append(acc, [R |-> JMM(BT, L[i].R), p |-> rel(L[i].p), o |-> rel(L[i].o), ax |-> JMV(BT, L[i].ax)]),
                         <<>>, [i \in 1..NL(rob) |-> i])
  IN K
FramePose(rob, K, f) ==
  IF f <= NL(rob) THEN [R |-> K[f].R, p |-> K[f].p]
  ELSE LET x == rob.frames[f - NL(rob)]  k == K[x.link] IN
       [R |-> JMM(k.R, Const(x.R)), p |-> JVAdd(k.p, JMV(k.R, Const(x.p)))]
SDot(st, a, b, i) == Var1(st.sd[i - 1], Idx(a, "sd") = i - 1, Idx(b, "sd") = i - 1)
\* joints whose motion moves link i with respect to the base: <<joint (= link number), sign>>
MovedBy(rob, B, i) == LET pi == {PathOf(rob, i)[x] : x \in 1..Len(PathOf(rob, i))}
                          pb == {PathOf(rob, B)[x] : x \in 1..Len(PathOf(rob, B))}
                      IN [up |-> pi \ pb, down |-> pb \ pi]
RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN <<Z, Z, Z, Z>> ELSE LET x == CHOOSE y \in S : TRUE IN JVAdd(f(x), SumOver(f, S \ {x}))
\* angular velocity of link i, in base coordinates, without / with (times 16) the base motion; om = BaseOmega16
RelOmega(rob, B, K, st, a, b, i) ==
  LET m == MovedBy(rob, B, i)  t(j) == JSV(SDot(st, a, b, j), K[j].ax) IN
  JVSub(SumOver(t, m.up), SumOver(t, m.down))
RelVel(rob, B, K, st, a, b, i, p) ==   \* velocity of the point p of link i with respect to the base
  LET m == MovedBy(rob, B, i)  t(j) == JSV(SDot(st, a, b, j), JCross(K[j].ax, JVSub(p, K[j].o))) IN
  JVSub(SumOver(t, m.up), SumOver(t, m.down))
Omega16(rob, B, K, st, a, b, om, i) == JVAdd(om, JVScl(16, RelOmega(rob, B, K, st, a, b, i)))
Vel16(rob, B, K, st, a, b, om, i, p) ==
  JVAdd(JVScl(16, JVAdd(Var3(st.bv, Idx(a, "bv"), Idx(b, "bv")), RelVel(rob, B, K, st, a, b, i, p))),
        JCross(om, p))

\* ------------------------------------------------------------------- dynamics
Mass(rob) == FoldLeft(LAMBDA acc, l : acc + l.m, 0, rob.links)
LinkCom(rob, K, i) == JVAdd(K[i].p, JMV(K[i].R, Const(rob.links[i].c)))
\* mass times centre of mass, in base coordinates
MCom(rob, K) == FoldLeft(LAMBDA acc, i : JVAdd(acc, JVScl(rob.links[i].m, LinkCom(rob, K, i))), <<Z, Z, Z, Z>>, [i \in 1..NL(rob) |-> i])
Lin16(rob, B, K, st, a, b, om) ==
  FoldLeft(LAMBDA acc, i : JVAdd(acc, JVScl(rob.links[i].m, Vel16(rob, B, K, st, a, b, om, i, LinkCom(rob, K, i)))), <<Z, Z, Z, Z>>, [i \in 1..NL(rob) |-> i])
\* angular momentum about the base origin, base coordinates
Ang16(rob, B, K, st, a, b, om) ==
  FoldLeft(LAMBDA acc, i :
     LET c == LinkCom(rob, K, i)
         v == Vel16(rob, B, K, st, a, b, om, i, c)
         w == Omega16(rob, B, K, st, a, b, om, i)
     IN JVAdd(acc, JVAdd(JVScl(rob.links[i].m, JCross(c, v)), JMV(K[i].R, JMV(Const(rob.links[i].I), JMV(JTr(K[i].R), w))))),
     <<Z, Z, Z, Z>>, [i \in 1..NL(rob) |-> i])
\* M times the angular momentum about the centre of mass
AngC16(rob, B, K, st, a, b, om) ==
  JVSub(JVScl(Mass(rob), Ang16(rob, B, K, st, a, b, om)), JCross(MCom(rob, K), Lin16(rob, B, K, st, a, b, om)))
\* is link l on the side of joint j which does not contain the base? (joint j = joint of link j)
Desc(rob, j, l) == \E x \in 1..Len(PathOf(rob, l)) : PathOf(rob, l)[x] = j
Far(rob, B, j) == IF Desc(rob, j, B) THEN {l \in 1..NL(rob) : ~Desc(rob, j, l)} ELSE {l \in 1..NL(rob) : Desc(rob, j, l)}
\* torque of joint j (times 4) holding the robot still in the gravity field g under forces at points:
\* loads is a sequence of [link, p (jet, base coordinates), f (jet times 4, base coordinates)]
Torque4(rob, B, K, g4, loads, j) ==
  LET far == Far(rob, B, j)
      sg == IF Desc(rob, j, B) THEN -1 ELSE 1
      arm(p) == JVSub(p, K[j].o)
      grav(l) == JVScl(rob.links[l].m, JCross(arm(LinkCom(rob, K, l)), g4))
      load(x) == JCross(arm(loads[x].p), loads[x].f)
      tot == JVAdd(SumOver(grav, far), SumOver(load, {x \in 1..Len(loads) : loads[x].link \in far}))
  IN JSScl(-sg, JDot(K[j].ax, tot))
=============================================================================
