--------------------------------- MODULE RTerms ---------------------------------
(***************************************************************************)
(* Properties C14, C10, C11: the constraints and costs which look at the   *)
(* robot.  Term gives the rows of a term as jets along the variables       *)
(* number a and b (0: none), times the scale of ScaleOf.                   *)
(***************************************************************************)
EXTENDS Terms, Robot
Unknown == 1999999998

RECURSIVE Locate(_, _)
Locate(labs, v) == IF v <= Head(labs)[2] THEN <<Head(labs)[1], v>> ELSE Locate(Tail(labs), v - Head(labs)[2])
Kind(label) == CASE label = "BasePosition" -> "bp" [] label = "BaseQuaternion" -> "q" [] label = "JointsPosition" -> "s"
                 [] label = "BaseLinearVelocity" -> "bv" [] label = "BaseQuaternionDerivative" -> "qd" [] label = "JointsVelocity" -> "sd"
                 [] OTHER -> label
Seed(w, v) == IF v = 0 THEN <<"none", 0>>
              ELSE LET l == IF v <= NX(w) THEN Locate(w.slab, v) ELSE Locate(w.clab, v - NX(w)) IN <<Kind(l[1]), l[2]>>
Seg(x, o, n) == SubSeq(x, o + 1, o + n)
StateOf(w, x, u) ==
  LET so(n) == SO(w, n)  co(n) == CO(w, n) - NX(w) IN
  [bp |-> Seg(x, so("BasePosition"), 3), q |-> Seg(x, so("BaseQuaternion"), 4), s |-> Seg(x, so("JointsPosition"), w.nj),
   bv |-> Seg(u, co("BaseLinearVelocity"), 3), bqd |-> Seg(u, co("BaseQuaternionDerivative"), 4), sd |-> Seg(u, co("JointsVelocity"), w.nj)]
\* a 3-vector block of the state as jets
Block(w, x, label, a, b) == Var3(Seg(x, SO(w, label), 3), Idx(a, label), Idx(b, label))

RobotKinds == {"com", "cpos", "mom", "lat", "fori", "fvel", "statt"}
ScaleOf(w, t) == CASE t.kind = "com" -> 4 * Mass(w.robot) [] t.kind = "cpos" -> 4 [] t.kind = "mom" -> 64 * Mass(w.robot)
                   [] t.kind = "lat" -> 1 [] t.kind = "fori" -> 1024 [] t.kind = "fvel" -> 512 [] OTHER -> 32
Rows3(v) == <<JComp(1, v), JComp(2, v), JComp(3, v)>>
\* dyadic numerators of the derivatives of 1 - q0(E), times 1024, where 4 q0^2 = 1 + tr(E), t4 = 4 tr(E)
OrientJet(t4, wt) ==
  LET tr == Div(Scal(t4[1]), 4)  A == Scal(t4[2])  B == Scal(t4[3])  AB == Scal(t4[4])
      J(v, da, db, dab) == << <<v>>, <<da>>, <<db>>, <<dab>> >>
  IN CASE tr = 3 -> J(0, -32 * wt * A, -32 * wt * B, -wt * (32 * AB - A * B))
       [] tr = 0 -> J(512 * wt, -64 * wt * A, -64 * wt * B, -wt * (64 * AB - 8 * A * B))
       [] tr = -1 -> J(1024 * wt, Unknown, Unknown, Unknown)
       [] OTHER -> J(Unknown, Unknown, Unknown, Unknown)
\* the link which carries the floating base frame
BaseLink(rob) == IF "base" \in DOMAIN rob THEN rob.base ELSE 1
RTerm(w, t, time, x, u, va, vb) ==
  LET rob == w.robot
      B == BaseLink(rob)
      st == StateOf(w, x, u)  a == Seed(w, va)  b == Seed(w, vb)
      K == Kin(rob, B, st, a, b)
      R4 == BaseRot4(st.q, Idx(a, "q"), Idx(b, "q"))
      bp == Var3(st.bp, Idx(a, "bp"), Idx(b, "bp"))
      M == Mass(rob)
      om == BaseOmega16(st, a, b)
  IN
  CASE t.kind = "com" -> Rows3(JVAdd(JVScl(4 * M, JVSub(bp, Block(w, x, "CoMPosition", a, b))), JMV(R4, MCom(rob, K))))
    [] t.kind = "cpos" -> LET f == FramePose(rob, K, t.prm.frame)
                              p == JVAdd(f.p, JMV(f.R, Const(t.prm.pos)))
                          IN Rows3(JVAdd(JVScl(4, JVSub(bp, Block(w, x, Pt(t.foot, "Position", t.pt), a, b))), JMV(R4, p)))
    [] t.kind = "mom" -> LET H == JMV(R4, AngC16(rob, B, K, st, a, b, om))
                             lab == "Momentum"  o == SO(w, lab)
                             sh(z) == IF z[1] = lab /\ z[2] > 3 THEN z[2] - 3 ELSE 0
                         IN Rows3(JVSub(H, JVScl(64 * M, Var3(Seg(x, o + 3, 3), sh(a), sh(b)))))
    [] t.kind = "lat" -> LET r == FramePose(rob, K, t.prm.ref)  o == FramePose(rob, K, t.prm.other) IN
                         <<JComp(t.prm.lat + 1, JMV(JTr(r.R), JVSub(o.p, r.p)))>>
    [] t.kind = "fori" -> LET f == FramePose(rob, K, t.prm.frame)
                              E == JMM(Const(Tr3(t.prm.rots[time + 1])), JMM(R4, f.R))
                          IN <<OrientJet(JLin(Trace3, E), Lin(t.prm.wgt, time)[1])>>
    [] t.kind = "fvel" -> LET f == FramePose(rob, K, t.prm.frame)
                              wf == JMV(JTr(f.R), Omega16(rob, B, K, st, a, b, om, LinkOfFrame(rob, t.prm.frame)))
                              E == JMM(JMM(R4, f.R), Const(Tr3(t.prm.rots[time + 1])))
                              e == JVAdd(wf, JVScl(2 * t.prm.gain, JLin(Vee2, E)))     \* times 16
                          IN <<JDot(e, e)>>
    [] OTHER -> \* statt
         LET RT == JTr(R4)
             g4 == JMV(RT, Const(t.prm.g))
             loadOf(foot, fr, pts, i) == LET f == FramePose(rob, K, fr) IN
                [link |-> LinkOfFrame(rob, fr), p |-> JVAdd(f.p, JMV(f.R, Const(pts[i]))), f |-> JMV(RT, Block(w, x, Pt(foot, "Force", i - 1), a, b))]
             loads == FoldLeft(LAMBDA acc, i : acc \o <<loadOf("Left", t.prm.lf, t.prm.lp, i), loadOf("Right", t.prm.rf, t.prm.rp, i)>>, <<>>, [i \in 1..w.n |-> i])
             tq(j) == Torque4(rob, B, K, g4, loads, j + 1)
         IN <<FoldLeft(LAMBDA acc, j : LET q == tq(j) IN JSAdd(acc, JSScl(t.prm.wt[j], JSMul(q, q))), <<Z, Z, Z, Z>>, [j \in 1..w.nj |-> j])>>

\* ------------------------------------------------- expected answers of a call
Num1(p) == IF p = Z THEN 0 ELSE p[1]
SumLam(P, lam, k) == FoldLeft(LAMBDA acc, r : LET v == Num1(P[r][k])  l == IF lam = <<>> THEN 1 ELSE lam[r] IN
                        IF acc = Unknown \/ (v = Unknown /\ l # 0) THEN Unknown ELSE acc + (IF v = Unknown THEN 0 ELSE l * v),
                        0, [r \in 1..Len(P) |-> r])
Shift(w, fn, second) == IF fn \in {"ju", "huu"} \/ (fn = "hxu" /\ second) THEN NX(w) ELSE 0
RExpected(w, t, c) ==
  LET P(a, b) == RTerm(w, t, c.t, c.x, c.u, a, b) IN
  IF c.fn = "val" THEN LET p == P(0, 0) IN FoldLeft(LAMBDA acc, r : Append(acc, Num1(p[r][1])), <<>>, [r \in 1..Len(p) |-> r])
  ELSE IF c.fn \in {"jx", "ju"}
  THEN FoldLeft(LAMBDA acc, v : LET p == P(v[1] + Shift(w, c.fn, FALSE), 0) IN acc \o FoldLeft(LAMBDA ac, r : Append(ac, Num1(p[r][2])), <<>>, [r \in 1..Len(p) |-> r]), <<>>, c.probes)
  ELSE FoldLeft(LAMBDA acc, v : Append(acc, SumLam(P(v[1] + Shift(w, c.fn, FALSE), v[2] + Shift(w, c.fn, TRUE)), c.lam, 4)), <<>>, c.probes)
ROk(exp, out) == Len(exp) = Len(out) /\ \A i \in 1..Len(exp) : exp[i] = Unknown \/ exp[i] = out[i]
\* the cells which are certainly nonzero at this point
RCells(w, t, c) ==
  LET e == RExpected(w, t, c) IN
  IF c.fn \in {"jx", "ju"} THEN LET R == Len(e) \div Len(c.probes) IN
       {<<((i - 1) % R) + 1, c.probes[((i - 1) \div R) + 1][1]>> : i \in {k \in 1..Len(e) : e[k] # 0 /\ e[k] # Unknown}}
  ELSE {<<c.probes[i][1], c.probes[i][2]>> : i \in {k \in 1..Len(e) : e[k] # 0 /\ e[k] # Unknown}}
RRows(t) == IF t.kind \in {"com", "cpos", "mom"} THEN 3 ELSE 1
RBounds(t) ==
  CASE t.kind \in {"com", "cpos", "mom"} -> [lo |-> <<-100 * t.prm.tol, -100 * t.prm.tol, -100 * t.prm.tol>>, up |-> <<100 * t.prm.tol, 100 * t.prm.tol, 100 * t.prm.tol>>]
    [] OTHER -> [lo |-> <<200 * t.prm.min>>, up |-> <<>>]
=============================================================================
