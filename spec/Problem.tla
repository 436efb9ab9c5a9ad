-------------------------------- MODULE Problem --------------------------------
(***************************************************************************)
(* Properties C16, C17, C18: the optimisation problem which a configuration*)
(* stands for.  Time is counted in ticks (half seconds).  The problem has  *)
(* one point (mesh) per instant of the discretisation, with a state and, at*)
(* the control instants ("C"), a control.                                  *)
(* Real values are pairs <<h, l>> = h + l / SC, 0 <= l < SC.               *)
(***************************************************************************)
EXTENDS RTerms
SC == 144000000
INFTY == 1900000001
UNK == <<0, Unknown>>
Pair(n, d) == <<n \div d, (n % d) * (SC \div d)>>
PairAdd(a, b) == IF a = UNK \/ b = UNK THEN UNK ELSE LET l == a[2] + b[2] IN <<a[1] + b[1] + l \div SC, l % SC>>
PairScl(k, a) == IF k = 0 THEN <<0, 0>> ELSE IF a = UNK THEN UNK ELSE LET l == k * a[2] IN <<k * a[1] + l \div SC, l % SC>>

\* ------------------------------------------------------------------- layout
TwoFeet == <<"Left", "Right">>
SLab(n, nj) == PSum([k \in 1..2 |-> PSum([i \in 1..n |-> <<<<Pt(TwoFeet[k], "Force", i - 1), 3>>, <<Pt(TwoFeet[k], "Position", i - 1), 3>>>>])])
               \o <<<<"Momentum", 6>>, <<"CoMPosition", 3>>, <<"BasePosition", 3>>, <<"BaseQuaternion", 4>>, <<"JointsPosition", nj>>>>
CLab(n, nj) == PSum([k \in 1..2 |-> PSum([i \in 1..n |-> <<<<Pt(TwoFeet[k], "ForceControl", i - 1), 3>>, <<Pt(TwoFeet[k], "VelocityControl", i - 1), 3>>>>])])
               \o <<<<"BaseLinearVelocity", 3>>, <<"BaseQuaternionDerivative", 4>>, <<"JointsVelocity", nj>>>>
DimX(n, nj) == 12 * n + 16 + nj
DimU(n, nj) == 12 * n + 7 + nj
WorldOf(c) == [n |-> c.n, nj |-> c.nj, mass |-> Mass(c.robot), slab |-> SLab(c.n, c.nj), clab |-> CLab(c.n, c.nj), robot |-> c.robot]
QOff(n) == 12 * n + 12

\* ------------------------------------------------------------ discretisation
Meshes(c, t0) ==
  LET end == t0 + c.H
      ctl == {t \in t0..end : (t - t0) % c.P = 0}
      kind(t) == IF t \in ctl THEN "C" ELSE "S"
      fill == IF c.P = 2 /\ c.max = 1 THEN {t + 1 : t \in {x \in ctl : x + 2 <= end}} ELSE {}
      all == ctl \cup {end} \cup fill
      sorted == SelectSeq([i \in 1..(c.H + 1) |-> t0 + i - 1], LAMBDA t : t \in all)
  IN [i \in 1..Len(sorted) |-> [t |-> sorted[i], k |-> kind(sorted[i])]]
\* the control which holds at mesh i: that of the last control instant
RECURSIVE CtlAt(_, _)
CtlAt(ms, i) == IF ms[i].k = "C" THEN i ELSE CtlAt(ms, i - 1)

\* ------------------------------------------------------------------- bounds (C16)
InRange(r, t) == r = <<>> \/ (r[1] <= t /\ t <= r[2])
\* side: 1 lower, 2 upper; t0: start of the horizon
StateBound(c, side, t) ==
  LET sg == IF side = 1 THEN -1 ELSE 1
      inf == sg * INFTY
      point == <<inf, inf, IF side = 1 THEN 0 ELSE inf>>
      com == IF c.box = 1 /\ InRange(c.rg_box, t)
             THEN LET r == Lin(c.r_com, t)  tol == Lin(c.tol_com, t)[1] IN [k \in 1..3 |-> r[k] + sg * tol]
             ELSE <<inf, inf, IF side = 1 THEN c.minh ELSE inf>>
  IN FlattenSeq([i \in 1..(4 * c.n) |-> point]) \o <<inf, inf, inf, sg * c.maxam, sg * c.maxam, sg * c.maxam>> \o com
     \o <<inf, inf, inf, inf, inf, inf, inf>> \o [j \in 1..c.nj |-> c.jl[j][side]]
Frozen(c, t0, t) == 4 * (t - t0) >= c.H * c.act
ControlBound(c, side, t0, t) ==
  LET sg == IF side = 1 THEN -1 ELSE 1
      inf == sg * INFTY
      lim(v) == IF Frozen(c, t0, t) THEN <<0, 0, 0>> ELSE <<sg * v[1], sg * v[2], sg * v[3]>>
  IN FlattenSeq([i \in 1..(2 * c.n) |-> lim(c.fmax) \o lim(c.vmax)]) \o <<inf, inf, inf, inf, inf, inf, inf>> \o [j \in 1..c.nj |-> c.jvl[j][side]]
\* quaternions appear times 2; the initial state is fixed, up to the sign of its quaternion
Norm4(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
HalfUnits(q) == IF Norm4(q) = 1 THEN <<2 * q[1], 2 * q[2], 2 * q[3], 2 * q[4]>> ELSE q
WithQuat(n, x, q) == [i \in 1..Len(x) |-> IF i \in (QOff(n) + 1)..(QOff(n) + 4) THEN q[i - QOff(n)] ELSE x[i]]
Neg4(q) == <<-q[1], -q[2], -q[3], -q[4]>>
QOf(n, x) == SubSeq(x, QOff(n) + 1, QOff(n) + 4)
\* the vectors a state may become when its rotation is written as a quaternion
Written(n, x) == {WithQuat(n, x, q) : q \in {HalfUnits(QOf(n, x)), Neg4(HalfUnits(QOf(n, x)))}}
BoundsOk(c, ms, side, x0, got) ==
  /\ Len(got) = Len(ms)
  /\ \A i \in 1..Len(ms) :
       LET sx == SubSeq(got[i], 1, DimX(c.n, c.nj))  su == SubSeq(got[i], DimX(c.n, c.nj) + 1, Len(got[i])) IN
       /\ IF i = 1 THEN sx \in Written(c.n, x0) ELSE sx = StateBound(c, side, ms[i].t)
       /\ su = IF ms[i].k = "C" THEN ControlBound(c, side, ms[1].t, ms[i].t) ELSE <<>>

\* ------------------------------------------------------------------ values of the terms (C17)
LnVar(ln, i) == \E k \in 1..Len(ln) : ln[k][1] = i
\* x: integers; the joint positions in quarter turns; ln as in Terms
EPoint(x, u, ln) == [x |-> x \o u, ln |-> ln]
PolyVal(w, t, tk, x, u, ln) == \* pairs, one per row
  LET T == Term(w, t, tk)
      s == IF ln = <<>> THEN T.D ELSE 625 * T.D
      e == EPoint(x, u, ln)
  IN [r \in 1..Len(T.P) |-> LET v == Eval(T.P[r], T.D, s, 1, e) IN IF v.u THEN UNK ELSE Pair(v.n, s)]
RobotVal(w, t, tk, x, u, ln) ==
  LET P == RTerm(w, t, tk, x, u, 0, 0)  s == ScaleOf(w, t)
  IN [r \in 1..Len(P) |-> LET v == Num1(P[r][1]) IN
        IF v = Unknown \/ (t.kind = "cpos" /\ LnVar(ln, FPos(w, t.foot, t.pt) + r)) THEN UNK ELSE Pair(v, s)]
IsRobot(t) == t.kind \in RobotKinds
\* a quadratic cost on a block of variables
QuadVal(x, off, wt, r) == LET n == Len(wt) IN
  Pair(FoldLeft(LAMBDA acc, k : acc + wt[k] * (x[off + k] - r[k]) * (x[off + k] - r[k]), 0, [k \in 1..n |-> k]), 2)
Ones(n) == [k \in 1..n |-> 1]
Zero(n) == [a |-> [k \in 1..n |-> 0], b |-> [k \in 1..n |-> 0]]
ActOn(k) == [k |-> k, off |-> FALSE, c |-> 0]
ActOff(k, off) == [k |-> k, off |-> off, c |-> 1]
On(c, name) == c.c[name][1] = 1
Wt(c, name) == c.c[name][2]
Rots40(c) == [i \in 1..60 |-> c.rots[((i - 1) % 4) + 1]]
T0(kind, prm) == [kind |-> kind, foot |-> "Left", pt |-> 0, prm |-> prm]
PerPoint(c, kind, prm(_, _)) == \* one term for each contact point of each foot
  FlattenSeq([k \in 1..2 |-> [i \in 1..c.n |-> [kind |-> kind, foot |-> TwoFeet[k], pt |-> i - 1, prm |-> prm(TwoFeet[k], i)]]])
\* the terms of an active cost
Single(c, name) ==
  CASE name = "com" -> <<T0("quad", [ctl |-> FALSE, lab |-> "CoMPosition", o |-> 0, wt |-> c.w_com, ref |-> c.r_com])>>
    [] name = "comvel" -> <<T0("comvelw", [wt |-> c.w_comvel, ref |-> c.r_comvel])>>
    [] name = "fori" -> <<T0("fori", [frame |-> c.fr, rots |-> Rots40(c), wgt |-> c.w_fori])>>
    [] name = "mean" -> PerPoint(c, "cost_mean", LAMBDA f, i : [none |-> 0])
    [] name = "ratio" -> PerPoint(c, "cost_ratio", LAMBDA f, i : [ratio |-> IF f = "Left" THEN c.ratl[i] ELSE c.ratr[i]])
    [] name = "jreg" -> <<T0("quad", [ctl |-> FALSE, lab |-> "JointsPosition", o |-> 0, wt |-> c.w_jreg, ref |-> c.r_joints])>>
    [] name = "jvel" -> <<T0("quad", [ctl |-> TRUE, lab |-> "JointsVelocity", o |-> 0, wt |-> c.w_jvel, ref |-> c.r_jvel])>>
    [] name = "statt" -> <<T0("statt", [lf |-> c.lf, rf |-> c.rf, lp |-> c.lp, rp |-> c.rp, wt |-> c.w_statt, g |-> c.robot.g])>>
    [] name = "fder" -> FlattenSeq([k \in 1..2 |-> [i \in 1..c.n |-> T0("quad", [ctl |-> TRUE, lab |-> Pt(TwoFeet[k], "ForceControl", i - 1), o |-> 0, wt |-> c.w_fder, ref |-> c.r_fder])]])
    [] name = "pacc" -> FlattenSeq([k \in 1..2 |-> [i \in 1..c.n |-> T0("quad", [ctl |-> TRUE, lab |-> Pt(TwoFeet[k], "VelocityControl", i - 1), o |-> 0, wt |-> c.w_pacc, ref |-> c.r_pacc])]])
    [] name = "swing" -> PerPoint(c, "cost_swing", LAMBDA f, i : [h |-> c.swingh, wts |-> c.w_swing])
    [] name = "phantom" -> PerPoint(c, "cost_phantom", LAMBDA f, i : [sech |-> ActOn(c.ks)])
    [] name = "point" -> <<T0("cost_point", [ref |-> c.r_point, wgt |-> c.w_point, bad |-> -1])>>
    [] name = "yawl" -> <<[T0("cost_yaw", [yaw |-> c.r_yawl, pts |-> c.lp]) EXCEPT !.foot = "Left"]>>
    [] name = "yawr" -> <<[T0("cost_yaw", [yaw |-> c.r_yawr, pts |-> c.rp]) EXCEPT !.foot = "Right"]>>
    [] name = "dist" -> <<T0("cost_feetdist", [none |-> 0])>>
    [] name = "post" -> <<T0("cost_postural", [ref |-> c.r_joints, jw |-> c.w_jvel, kp |-> c.w_jreg])>>
    [] name = "compl" -> PerPoint(c, "cost_compl", LAMBDA f, i : [none |-> 0])
    [] name = "bpos" -> <<T0("quad", [ctl |-> FALSE, lab |-> "BasePosition", o |-> 0, wt |-> c.w_bpos, ref |-> c.r_bpos])>>
    [] name = "bquat" -> <<T0("quad", [ctl |-> FALSE, lab |-> "BaseQuaternion", o |-> 0, wt |-> Ones(4), ref |-> c.r_bquat])>>
    [] name = "fvel" -> <<T0("fvel", [frame |-> c.fr, rots |-> Rots40(c), gain |-> c.gain])>>
    [] name = "blin" -> <<T0("quad", [ctl |-> TRUE, lab |-> "BaseLinearVelocity", o |-> 0, wt |-> c.w_blin, ref |-> c.r_blin])>>
    [] name = "bqv" -> <<T0("quad", [ctl |-> TRUE, lab |-> "BaseQuaternionDerivative", o |-> 0, wt |-> Ones(4), ref |-> c.r_bqv])>>
    [] OTHER -> <<T0("quad", [ctl |-> FALSE, lab |-> "Momentum", o |-> 3, wt |-> Ones(3), ref |-> Zero(3)])>>   \* angm
CostNames == <<"com", "comvel", "fori", "mean", "ratio", "jreg", "jvel", "statt", "fder", "pacc", "swing", "phantom", "point", "yawl", "yawr", "dist", "post",
               "compl", "bpos", "bquat", "fvel", "blin", "bqv", "angm">>
RangeOf(c, name) == CASE name = "com" -> c.rg_com [] name = "comvel" -> c.rg_comvel [] name = "point" -> c.rg_point [] name = "bpos" -> c.rg_bpos [] OTHER -> <<>>
CostVal(w, t, tk, x, u, ln) ==
  CASE t.kind = "quad" -> LET lab == IF t.prm.ctl THEN w.clab ELSE w.slab  v == IF t.prm.ctl THEN u ELSE x IN
                            QuadVal(v, OffIn(lab, t.prm.lab) + t.prm.o, t.prm.wt, Lin(t.prm.ref, tk))
    [] t.kind = "comvelw" -> LET r == Lin(t.prm.ref, tk) IN QuadVal(x, SO(w, "Momentum"), t.prm.wt, [k \in 1..3 |-> w.mass * r[k]])
    [] IsRobot(t) -> RobotVal(w, t, tk, x, u, ln)[1]
    [] OTHER -> PolyVal(w, t, tk, x, u, ln)[1]
\* the whole cost at an instant
CostAt(c, w, tk, x, u, ln) ==
  FoldLeft(LAMBDA acc, name :
     IF ~On(c, name) \/ ~InRange(RangeOf(c, name), tk) THEN acc
     ELSE FoldLeft(LAMBDA a, t : PairAdd(a, PairScl(Wt(c, name), CostVal(w, t, tk, x, u, ln))), acc, Single(c, name)),
     <<0, 0>>, CostNames)

\* constraints: [kind, ...] with their bounds
Constraints(c) ==
  LET point(foot, i) ==
        LET mk(kind, prm) == [kind |-> kind, foot |-> foot, pt |-> i - 1, prm |-> prm] IN
        (CASE c.plan = "pv" -> <<mk("pv", [tanh |-> ActOn(c.kt), mx |-> c.vmax[1], my |-> c.vmax[2]])>>
           [] c.plan = "cpc" -> <<mk("cpc", [tol |-> c.cpctol])>> [] OTHER -> <<>>)
        \o (CASE c.comp = "dc" -> <<mk("dc", [gain |-> c.cgain, ub |-> c.dcub])>>
              [] c.comp = "fc" -> <<mk("fc", [sech |-> ActOn(c.ks), maxd |-> c.fmax[3], diss |-> c.diss])>>
              [] c.comp = "cc" -> <<mk("cc", [tol |-> c.cctol])>> [] OTHER -> <<>>)
        \o <<mk("fric", [mn |-> c.mu[1], md |-> c.mu[2]]),
             mk("cpos", [frame |-> IF foot = "Left" THEN c.lf ELSE c.rf, pos |-> IF foot = "Left" THEN c.lp[i] ELSE c.rp[i], tol |-> c.pptol])>>
  IN <<T0("mom", [tol |-> c.momtol]), T0("com", [tol |-> c.comtol]), T0("lat", [lat |-> c.lat, ref |-> c.ref, other |-> c.oth, min |-> c.mindist]),
       T0("qn", [tol |-> c.qntol]), T0("frh", [max |-> c.frh])>>
     \o FlattenSeq([k \in 1..2 |-> FlattenSeq([i \in 1..c.n |-> point(TwoFeet[k], i)])])
BoundPair(t, R) == \* per row <<lower, upper>>, times 200
  IF IsRobot(t) THEN LET b == RBounds(t) IN [r \in 1..R |-> <<IF b.lo = <<>> THEN -INFTY ELSE b.lo[r], IF b.up = <<>> THEN INFTY ELSE b.up[r]>>]
  ELSE LET b == Bounds(t) IN [r \in 1..R |-> <<IF b.lo.has THEN b.lo.b[r] ELSE -INFTY, IF b.up.has THEN b.up.b[r] ELSE INFTY>>]
\* rows <<h, l, lower, upper>>; unit: the quaternion of x stands for the unit one along it
RowsAt(c, w, tk, x, u, ln, unit) ==
  FoldLeft(LAMBDA acc, t :
     LET v == IF IsRobot(t) THEN RobotVal(w, t, tk, x, u, ln) ELSE IF t.kind = "qn" /\ unit THEN <<<<0, 0>>>> ELSE PolyVal(w, t, tk, x, u, ln)
         b == BoundPair(t, Len(v))
     IN acc \o [r \in 1..Len(v) |-> <<v[r][1], v[r][2], b[r][1], b[r][2]>>],
     <<>>, Constraints(c))
\* the constraints of the dynamics between two instants, D ticks apart (trapezoidal rule), joints left in quarter turns when equal
DynTerm(c) == T0("dyn", [tanh |-> ActOff(c.kt, c.plan # "dyn"), sech |-> ActOff(c.ks, c.comp # "dyn"), diss |-> c.diss])
DynVal(c, w, x, u, ln) == \* numerators over 62500 (or 6400)
  LET s == IF ln = <<>> THEN 6400 ELSE 62500
      T == Term(w, DynTerm(c), 0)  q2 == Norm4(QOf(c.n, x))
  IN [r \in 1..Len(T.P) |-> Eval(T.P[r], T.D, s, q2, EPoint(x, u, ln))]
Collocation(c, w, D, x0, u0, ln0, x1, u1, ln1) ==
  LET ln == ln0 \o ln1
      s == IF ln = <<>> THEN 6400 ELSE 62500
      f0 == DynVal(c, w, x0, u0, IF ln = <<>> THEN <<>> ELSE IF ln0 = <<>> THEN <<<<0, 1, 1>>>> ELSE ln0)
      f1 == DynVal(c, w, x1, u1, IF ln = <<>> THEN <<>> ELSE IF ln1 = <<>> THEN <<<<0, 1, 1>>>> ELSE ln1)
  IN [r \in 1..Len(f0) |-> IF f0[r].u \/ f1[r].u \/ LnVar(ln, r) THEN UNK ELSE Pair(4 * s * (x0[r] - x1[r]) + D * (f0[r].n + f1[r].n), 4 * s)]
PairOk(e, g) == e = UNK \/ e = g
SeqOk(e, g) == Len(e) = Len(g) /\ \A i \in 1..Len(e) : PairOk(e[i], g[i])
\* the known rows appear among the observed ones, as often
RowLess(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
RowUnk(r) == r[2] = Unknown
Count(sq, r) == Cardinality({i \in 1..Len(sq) : sq[i] = r})
RowsOk(e, g) ==
  /\ Len(e) = Len(g)
  /\ LET k == SelectSeq(e, LAMBDA r : ~RowUnk(r)) IN
     IF Len(k) = Len(e) THEN SortSeq(e, RowLess) = SortSeq(g, RowLess) ELSE \A i \in 1..Len(k) : Count(g, k[i]) >= Count(k, k[i])
\* one evaluation of the problem at a point: what is not as it should be
PointWrong(c, w, ms, x0, q0, p, e) ==
  LET ln(i) == LET s == SelectSeq(p.ln, LAMBDA l : l[1] = i) IN [k \in 1..Len(s) |-> <<s[k][2], s[k][3], s[k][4]>>]
      u(i) == p.u[CtlAt(ms, i)]
      up(i) == p.u[CtlAt(ms, i - 1)]
      N == Len(ms)
      cost == FoldLeft(LAMBDA acc, i : PairAdd(acc, CostAt(c, w, ms[i].t, p.x[i], u(i), ln(i))), <<0, 0>>, [i \in 1..N |-> i])
      first == WithQuat(c.n, x0, q0)
      Diff2(a, b) == IF Len(a) # Len(b) THEN <<Len(a), Len(b)>> ELSE {<<k, a[k], b[k]>> : k \in {j \in 1..Len(a) : a[j] # b[j]}}
      Lack(a, b) == <<{a[k] : k \in {j \in 1..Len(a) : a[j] \notin Range(b)}}, {b[k] : k \in {j \in 1..Len(b) : b[j] \notin Range(a)}}>>
      Bad(name, i, ok) == IF ok THEN {} ELSE {<<name, i>>}
  IN IF e.ok # 1 THEN {"evaluation failed"}
     ELSE IF Len(e.col) # N - 1 \/ Len(e.con) # N THEN {"sizes"}
     ELSE Bad(<<"cost", cost, e.cost>>, 0, PairOk(cost, e.cost))
          \cup UNION {LET x == Collocation(c, w, ms[i].t - ms[i - 1].t, p.x[i - 1], up(i), ln(i - 1), p.x[i], u(i), ln(i)) IN
                      Bad(<<"dynamics", Diff2(x, e.col[i - 1])>>, i, SeqOk(x, e.col[i - 1])) : i \in 2..N}
          \cup (IF p.mode = "B" THEN {}
                ELSE UNION {LET x == RowsAt(c, w, ms[i].t, IF i = 1 THEN first ELSE p.x[i], u(i), IF i = 1 THEN <<>> ELSE ln(i), i = 1) IN
                            Bad(<<"constraints", Lack(x, e.con[i])>>, i, RowsOk(x, e.con[i])) : i \in 1..N})
================================================================================
