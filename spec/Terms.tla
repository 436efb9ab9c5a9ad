-------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* Properties C08, C09, C10, C11, C13: the contact and posture constraints,*)
(* the foot and force costs and the system dynamics of the planner.        *)
(*                                                                         *)
(* Every term is a polynomial over the optimisation variables and over two *)
(* transcendental activation symbols (and the inverse squared norm of the  *)
(* base quaternion); its derivatives are taken symbolically here, and      *)
(* evaluated exactly at points where the symbols have rational values.     *)
(*                                                                         *)
(* symbol    <<kind, index, order, K>>                                     *)
(*   "x"     optimisation variable (states 1..NX, controls NX+1..NX+NU)    *)
(*   "T"     order-th derivative of tanh(K p), p variable number index     *)
(*   "S"     order-th derivative of 1/cosh(K p)                            *)
(*   "W"     1/(x_i^2+x_(i+1)^2+x_(i+2)^2+x_(i+3)^2)                       *)
(* monomial  [c |-> integer, v |-> sequence of symbols]                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ------------------------------------------------------------ polynomials
Sx(i) == <<"x", i, 0, 0>>
C(k) == IF k = 0 THEN <<>> ELSE <<[c |-> k, v |-> <<>>]>>
X(i) == <<[c |-> 1, v |-> <<Sx(i)>>]>>
PScale(k, p) == IF k = 0 THEN <<>> ELSE [i \in 1..Len(p) |-> [p[i] EXCEPT !.c = k * @]]
PAdd(p, q) == p \o q
PSub(p, q) == p \o PScale(-1, q)
PMul(p, q) == [i \in 1..(Len(p) * Len(q)) |->
                 LET a == p[((i - 1) \div Len(q)) + 1]  b == q[((i - 1) % Len(q)) + 1]
                 IN [c |-> a.c * b.c, v |-> a.v \o b.v]]
PSq(p) == PMul(p, p)
PSum(ps) == FlattenSeq(ps)

DSym(s, j) == CASE s[1] = "x" -> IF s[2] = j THEN <<[c |-> 1, v |-> <<>>]>> ELSE <<>>
                [] s[1] = "W" -> IF j \in s[2]..(s[2] + 3) THEN <<[c |-> -2, v |-> <<Sx(j), s, s>>]>> ELSE <<>>
                [] OTHER -> IF s[2] = j THEN <<[c |-> 1, v |-> <<<<s[1], s[2], s[3] + 1, s[4]>>>>]>> ELSE <<>>
DMono(m, j) == PSum([k \in 1..Len(m.v) |->
                 LET d == DSym(m.v[k], j) IN
                 [i \in 1..Len(d) |-> [c |-> m.c * d[i].c, v |-> SubSeq(m.v, 1, k - 1) \o d[i].v \o SubSeq(m.v, k + 1, Len(m.v))]]])
Diff(p, j) == PSum([i \in 1..Len(p) |-> DMono(p[i], j)])
VarsOfSym(s) == IF s[1] = "W" THEN s[2]..(s[2] + 3) ELSE {s[2]}
VarsOf(p) == UNION {UNION {VarsOfSym(p[i].v[k]) : k \in 1..Len(p[i].v)} : i \in 1..Len(p)}

\* identically zero? (monomials collected by their multiset of symbols)
Bag(v) == LET R == {v[k] : k \in 1..Len(v)} IN [s \in R |-> Cardinality({k \in 1..Len(v) : v[k] = s})]
SumC(p, b) == FoldLeft(LAMBDA acc, m : IF Bag(m.v) = b THEN acc + m.c ELSE acc, 0, p)
NonZero(p) == \E i \in 1..Len(p) : SumC(p, Bag(p[i].v)) # 0

\* ------------------------------------------------------------- evaluation
\* at a point e: [x |-> values, ln |-> sequence of <<index, sign, K>>: variable = sign ln2 / K]
\* each symbol gives [u |-> value not known here, n |-> numerator, p |-> power of 5 below, w |-> power of the quaternion norm below]
Lns(e, i) == {k \in 1..Len(e.ln) : e.ln[k][1] = i}
Num(k, p) == [u |-> FALSE, n |-> k, p |-> p, w |-> 0]
Unk == [u |-> TRUE, n |-> 0, p |-> 0, w |-> 0]
Norm2(e, i) == e.x[i] * e.x[i] + e.x[i+1] * e.x[i+1] + e.x[i+2] * e.x[i+2] + e.x[i+3] * e.x[i+3]
SymVal(s, e) ==
  LET ls == Lns(e, s[2]) IN
  IF s[1] = "x" THEN IF ls = {} THEN Num(e.x[s[2]], 0) ELSE Unk
  ELSE IF s[1] = "W" THEN [u |-> FALSE, n |-> 1, p |-> 0, w |-> 1]
  ELSE LET K == s[4]  d == s[3] IN
  IF ls # {} THEN
     LET l == e.ln[CHOOSE k \in ls : TRUE]  sg == l[2] IN
     IF l[3] # K THEN Unk
     ELSE IF s[1] = "T" THEN (CASE d = 0 -> Num(3 * sg, 1) [] d = 1 -> Num(16 * K, 2) [] d = 2 -> Num(-96 * K * K * sg, 3) [] OTHER -> Unk)
     ELSE (CASE d = 0 -> Num(4, 1) [] d = 1 -> Num(-12 * K * sg, 2) [] d = 2 -> Num(-28 * K * K, 3) [] OTHER -> Unk)
  ELSE LET a == e.x[s[2]] IN
  IF a = 0 THEN IF s[1] = "T" THEN (CASE d = 0 -> Num(0, 0) [] d = 1 -> Num(K, 0) [] d = 2 -> Num(0, 0) [] OTHER -> Unk)
                ELSE (CASE d = 0 -> Num(1, 0) [] d = 1 -> Num(0, 0) [] d = 2 -> Num(-(K * K), 0) [] OTHER -> Unk)
  ELSE IF K >= 40 THEN IF d > 0 \/ s[1] = "S" THEN Num(0, 0) ELSE Num(IF a > 0 THEN 1 ELSE -1, 0)
  ELSE Unk
Pow(b, k) == CASE k = 0 -> 1 [] k = 1 -> b [] k = 2 -> b * b [] k = 3 -> b * b * b [] OTHER -> b * b * b * b
RECURSIVE ProdSyms(_, _)
ProdSyms(v, e) ==
  IF v = <<>> THEN Num(1, 0)
  ELSE LET a == SymVal(Head(v), e) IN
       IF ~a.u /\ a.n = 0 THEN Num(0, 0)
       ELSE LET b == ProdSyms(Tail(v), e) IN
            IF ~b.u /\ b.n = 0 THEN Num(0, 0)
            ELSE IF a.u \/ b.u THEN Unk
            ELSE [u |-> FALSE, n |-> a.n * b.n, p |-> a.p + b.p, w |-> a.w + b.w]
\* value of the polynomial / D, times the scale S (q2: squared norm of the quaternion)
Eval(p, D, S, q2, e) ==
  FoldLeft(LAMBDA r, m : LET a == ProdSyms(m.v, e) IN
             IF r.u \/ (a.u /\ m.c # 0) THEN [u |-> TRUE, n |-> 0]
             ELSE [u |-> FALSE, n |-> r.n + a.n * m.c * (S \div (D * Pow(5, a.p) * Pow(q2, a.w)))],
           [u |-> FALSE, n |-> 0], p)

\* ---------------------------------------------------------- the variables
\* a world: [n, nj, mass, slab, clab] with slab, clab sequences of <<label, size>>
RECURSIVE OffIn(_, _)
OffIn(labs, name) == IF Head(labs)[1] = name THEN 0 ELSE Head(labs)[2] + OffIn(Tail(labs), name)
RECURSIVE SizeOfLabs(_)
SizeOfLabs(labs) == IF labs = <<>> THEN 0 ELSE Head(labs)[2] + SizeOfLabs(Tail(labs))
NX(w) == SizeOfLabs(w.slab)
NU(w) == SizeOfLabs(w.clab)
Pt(foot, what, i) == foot \o what \o "Point" \o ToString(i)
SO(w, name) == OffIn(w.slab, name)
CO(w, name) == NX(w) + OffIn(w.clab, name)
FPos(w, f, i) == SO(w, Pt(f, "Position", i))
FFor(w, f, i) == SO(w, Pt(f, "Force", i))
FVel(w, f, i) == CO(w, Pt(f, "VelocityControl", i))
FFoc(w, f, i) == CO(w, Pt(f, "ForceControl", i))
V3(o) == <<X(o + 1), X(o + 2), X(o + 3)>>
Act(kind, pz, a) == IF a.off THEN C(a.c) ELSE <<[c |-> 1, v |-> <<<<kind, pz, 0, a.k>>>>]>>
Pts(w) == [i \in 1..w.n |-> i - 1]

\* --------------------------------------------------------------- the terms
\* t: [kind, foot, pt, prm]; gives the polynomials P (one per row) over the common denominator D
QuarterCos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
QuarterSin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Lin(r, t) == [i \in 1..Len(r.a) |-> r.a[i] + r.b[i] * t]

\* corners of a foot as the yaw cost sees them: n * (position - centroid), 1-based index of the point farthest out in a quadrant
RECURSIVE SumPos(_)
SumPos(ps) == IF ps = <<>> THEN <<0, 0>> ELSE <<Head(ps)[1] + SumPos(Tail(ps))[1], Head(ps)[2] + SumPos(Tail(ps))[2]>>
RelPos(ps) == [i \in 1..Len(ps) |-> <<Len(ps) * ps[i][1] - SumPos(ps)[1], Len(ps) * ps[i][2] - SumPos(ps)[2]>>]
AbsV(x) == IF x < 0 THEN -x ELSE x
Corner(ps, In(_)) == LET r == RelPos(ps)
                         Q == {i \in 1..Len(ps) : In(r[i])}
                     IN CHOOSE i \in Q : \A j \in Q : AbsV(r[j][1] * r[j][2]) < AbsV(r[i][1] * r[i][2])
                                                   \/ (AbsV(r[j][1] * r[j][2]) = AbsV(r[i][1] * r[i][2]) /\ i <= j)
BR(ps) == Corner(ps, LAMBDA r : r[2] < 0 /\ r[1] < 0)
TR(ps) == Corner(ps, LAMBDA r : r[2] < 0 /\ r[1] > 0)
TL(ps) == Corner(ps, LAMBDA r : r[2] >= 0 /\ r[1] > 0)
\* direction of the right edge of the undeformed foot as (cos, sin)/5; only multiples of the 3-4-5 directions occur
EdgeDir(ps) == LET dx == ps[TR(ps)][1] - ps[BR(ps)][1]  dy == ps[TR(ps)][2] - ps[BR(ps)][2] IN
               CASE dy = 0 -> <<5, 0>>
                 [] dx * 3 = dy * 4 -> <<4, 3>>
                 [] dx * 3 = -(dy * 4) -> <<4, -3>>
                 [] dx * 4 = dy * 3 -> <<3, 4>>
                 [] OTHER -> <<3, -4>>

ForceFx(w, f, k) == PSum([i \in 1..w.n |-> X(FFor(w, f, i - 1) + k)])
PosSum(w, f, k) == PSum([i \in 1..w.n |-> X(FPos(w, f, i - 1) + k)])

QuatRot(w) == \* rotation matrix of the base quaternion (w, x, y, z) times its squared norm
  LET o == SO(w, "BaseQuaternion")
      a == X(o + 1)  b == X(o + 2)  c == X(o + 3)  d == X(o + 4)
      two(p, q) == PScale(2, PMul(p, q))
  IN << <<PSub(PAdd(PSq(a), PSq(b)), PAdd(PSq(c), PSq(d))), PSub(two(b, c), two(a, d)), PAdd(two(b, d), two(a, c))>>,
        <<PAdd(two(b, c), two(a, d)), PSub(PAdd(PSq(a), PSq(c)), PAdd(PSq(b), PSq(d))), PSub(two(c, d), two(a, b))>>,
        <<PSub(two(b, d), two(a, c)), PAdd(two(c, d), two(a, b)), PSub(PAdd(PSq(a), PSq(d)), PAdd(PSq(b), PSq(c)))>> >>

\* gravity, in hundredths
Grav100(w) == IF "robot" \in DOMAIN w THEN <<100 * w.robot.g[1], 100 * w.robot.g[2], 100 * w.robot.g[3]>> ELSE <<0, 0, -981>>
\* the dynamics, row by row (row r belongs to state r); denominators: D = 100
DynRow(w, t) ==
  LET lin(k) == PScale(100, PAdd(PSum([i \in 1..w.n |-> X(FFor(w, "Left", i - 1) + k)]), PSum([i \in 1..w.n |-> X(FFor(w, "Right", i - 1) + k)])))
      com == V3(SO(w, "CoMPosition"))
      moment(f, i, k) == LET p == V3(FPos(w, f, i))  fo == V3(FFor(w, f, i))
                             d == [j \in 1..3 |-> PSub(p[j], com[j])]
                             a == IF k = 3 THEN 1 ELSE k + 1   b == IF k = 1 THEN 3 ELSE k - 1
                         IN PScale(100, PSub(PMul(d[a], fo[b]), PMul(d[b], fo[a])))
      ang(k) == PAdd(PSum([i \in 1..w.n |-> moment("Left", i - 1, k)]), PSum([i \in 1..w.n |-> moment("Right", i - 1, k)]))
      mo == SO(w, "Momentum")
      W == <<[c |-> 1, v |-> <<<<"W", SO(w, "BaseQuaternion") + 1, 0, 0>>>>]>>
      R == QuatRot(w)
      v == V3(CO(w, "BaseLinearVelocity"))
      point(f, i) ==
        LET pz == FPos(w, f, i) + 3
            dz == Act("S", pz, t.prm.sech)
            dxy == Act("T", pz, t.prm.tanh)
            fz == X(FFor(w, f, i) + 3)  u == V3(FFoc(w, f, i))  ve == V3(FVel(w, f, i))
        IN [f |-> <<PScale(100, u[1]), PScale(100, u[2]),
                    PScale(100, PAdd(PMul(dz, u[3]), PScale(t.prm.diss, PMul(PSub(dz, C(1)), fz))))>>,
            p |-> <<PScale(100, PMul(dxy, ve[1])), PScale(100, PMul(dxy, ve[2])), PScale(100, ve[3])>>]
      blockOf(name) ==
        CASE name = "Momentum" -> [k \in 1..6 |-> IF k <= 3 THEN PAdd(lin(k), C(Grav100(w)[k] * w.mass)) ELSE ang(k - 3)]
          [] name = "CoMPosition" -> [k \in 1..3 |-> PScale(100 \div w.mass, X(mo + k))]
          [] name = "BasePosition" -> [k \in 1..3 |-> PScale(100, PMul(W, PSum([j \in 1..3 |-> PMul(R[k][j], v[j])])))]
          [] name = "BaseQuaternion" -> [k \in 1..4 |-> PScale(100, X(CO(w, "BaseQuaternionDerivative") + k))]
          [] name = "JointsPosition" -> [k \in 1..w.nj |-> PScale(100, X(CO(w, "JointsVelocity") + k))]
          [] OTHER -> LET fi == CHOOSE c \in ({"Left", "Right"} \X (0..(w.n - 1)) \X {"Position", "Force"}) : Pt(c[1], c[3], c[2]) = name
                      IN IF fi[3] = "Force" THEN point(fi[1], fi[2]).f ELSE point(fi[1], fi[2]).p
  IN PSum([b \in 1..Len(w.slab) |-> blockOf(w.slab[b][1])])   \* concatenation of the blocks

Term(w, t, time) ==
  LET f == t.foot  i == t.pt  q == t.prm
      p == V3(FPos(w, f, i))  fo == V3(FFor(w, f, i))  ve == V3(FVel(w, f, i))  fc == V3(FFoc(w, f, i))
      pz == FPos(w, f, i) + 3
      T(P, D) == [P |-> P, D |-> D]
      Half(sq, D) == [P |-> <<sq>>, D |-> 2 * D]
  IN
  CASE t.kind = "fc" -> LET d == Act("S", pz, q.sech) IN
         T(<<PAdd(PSub(fc[3], PScale(q.maxd, d)), PScale(q.diss, PMul(PSub(C(1), d), fo[3])))>>, 1)
    [] t.kind = "fric" -> T(<<PSub(PScale(q.md * q.md, PAdd(PSq(fo[1]), PSq(fo[2]))), PScale(q.mn * q.mn, PSq(fo[3])))>>, q.md * q.md)
    [] t.kind = "cc" -> T(<<PMul(p[3], fo[3])>>, 1)
    [] t.kind = "cpc" -> T(<<PMul(ve[1], fo[3]), PMul(ve[2], fo[3])>>, 1)
    [] t.kind = "dc" -> T(<<PAdd(PAdd(PMul(fc[3], p[3]), PMul(fo[3], ve[3])), PScale(q.gain, PMul(p[3], fo[3])))>>, 1)
    [] t.kind = "nv" -> T(<<PSub(C(q.maxd), ve[3]), PAdd(ve[3], PScale(q.maxd, Act("T", pz, q.tanh)))>>, 1)
    [] t.kind = "pv" -> LET d == Act("T", pz, q.tanh) IN
         T(<<PSub(PScale(q.mx, d), ve[1]), PSub(PScale(q.my, d), ve[2]), PAdd(ve[1], PScale(q.mx, d)), PAdd(ve[2], PScale(q.my, d))>>, 1)
    [] t.kind = "qn" -> LET o == SO(w, "BaseQuaternion") IN
         T(<<PAdd(PSum([k \in 1..4 |-> PSq(X(o + k))]), C(-1))>>, 1)
    [] t.kind = "frh" -> T(<<PSub(PosSum(w, "Left", 3), PosSum(w, "Right", 3))>>, w.n)
    [] t.kind = "dyn" -> T(DynRow(w, t), 100)
    [] t.kind = "cost_compl" -> Half(PMul(PSq(ve[3]), PSq(fo[3])), 1)
    [] t.kind = "cost_feetdist" -> Half(PSum([k \in 1..3 |-> PSq(PSub(PosSum(w, "Left", k), PosSum(w, "Right", k)))]), w.n * w.n)
    [] t.kind = "cost_yaw" ->
         LET k == Lin(q.yaw, time)[1]   e == EdgeDir(q.pts)
             cc == e[1] * QuarterCos(k) - e[2] * QuarterSin(k)   ss == e[1] * QuarterSin(k) + e[2] * QuarterCos(k)
             br == V3(FPos(w, f, BR(q.pts) - 1))  tr == V3(FPos(w, f, TR(q.pts) - 1))  tl == V3(FPos(w, f, TL(q.pts) - 1))
             a == PSub(PScale(cc, PSub(tr[2], br[2])), PScale(ss, PSub(tr[1], br[1])))
             b == PAdd(PScale(cc, PSub(tl[1], tr[1])), PScale(ss, PSub(tl[2], tr[2])))
         IN Half(PAdd(PSq(a), PSq(b)), 25)
    [] t.kind = "cost_mean" -> Half(PAdd(PSq(PSub(PScale(w.n, fo[1]), ForceFx(w, f, 1))), PSq(PSub(PScale(w.n, fo[2]), ForceFx(w, f, 2)))), w.n * w.n)
    [] t.kind = "cost_ratio" -> Half(PSq(PSub(PScale(4, fo[3]), PScale(q.ratio, ForceFx(w, f, 3)))), 16)
    [] t.kind = "cost_phantom" -> Half(PSq(PMul(PSub(C(1), Act("S", pz, q.sech)), fo[3])), 1)
    [] t.kind = "cost_swing" -> Half(PSum([k \in 1..3 |-> PScale(q.wts[k], PSq(PMul(ve[k], PSub(p[3], C(q.h)))))]), 1)
    [] t.kind = "cost_point" -> LET r == Lin(q.ref, time)  wt == Lin(q.wgt, time) IN
         Half(PSum([k \in 1..3 |-> PScale(wt[k], PSq(PSub(PAdd(PosSum(w, "Left", k), PosSum(w, "Right", k)), C(2 * w.n * r[k]))))]), 4 * w.n * w.n)
    [] t.kind = "cost_comvel" -> LET r == Lin(q.ref, time) IN
         Half(PSum([k \in 1..3 |-> PSq(PSub(X(SO(w, "Momentum") + k), C(w.mass * r[k])))]), 1)
    [] OTHER -> LET r == Lin(q.ref, time)  js == SO(w, "JointsPosition")  ju == CO(w, "JointsVelocity") IN \* cost_postural
         Half(PSum([k \in 1..w.nj |-> PSq(PScale(q.jw[k], PAdd(X(ju + k), PScale(q.kp[k], PSub(X(js + k), C(r[k]))))))]), 1)

\* is the reference usable at this time?
RefOk(t, time) == t.kind = "cost_point" => ~(time \in {t.prm.bad})

\* --------------------------------------------------------------- the bounds (times 2*100)
Bounds(t) ==
  LET z(n, b) == [i \in 1..n |-> b]
      N == [has |-> FALSE, b |-> <<>>]
      B(s) == [has |-> TRUE, b |-> [i \in 1..Len(s) |-> 200 * s[i]]]
  IN CASE t.kind = "fc" -> [lo |-> N, up |-> B(<<0>>)]
       [] t.kind = "fric" -> [lo |-> N, up |-> B(<<0>>)]
       [] t.kind = "cc" -> [lo |-> N, up |-> B(<<t.prm.tol>>)]
       [] t.kind = "cpc" -> [lo |-> B(<<-t.prm.tol, -t.prm.tol>>), up |-> B(<<t.prm.tol, t.prm.tol>>)]
       [] t.kind = "dc" -> [lo |-> N, up |-> B(<<t.prm.ub>>)]
       [] t.kind = "nv" -> [lo |-> B(<<0, 0>>), up |-> N]
       [] t.kind = "pv" -> [lo |-> B(<<0, 0, 0, 0>>), up |-> N]
       [] t.kind = "qn" -> [lo |-> [has |-> TRUE, b |-> <<-100 * t.prm.tol>>], up |-> [has |-> TRUE, b |-> <<100 * t.prm.tol>>]]
       [] OTHER -> [lo |-> B(<<-t.prm.max>>), up |-> B(<<t.prm.max>>)]   \* frh

\* ------------------------------------------------- expected answers of a call
\* contraction with the multipliers (a cost has the multiplier 1)
RECURSIVE Contract(_, _, _)
Contract(P, lam, i) == IF i > Len(P) THEN <<>> ELSE (IF lam[i] = 0 THEN <<>> ELSE PScale(lam[i], P[i])) \o Contract(P, lam, i + 1)
StateVars(w) == 1..NX(w)
ControlVars(w) == (NX(w) + 1)..(NX(w) + NU(w))
\* expected entries as [k |-> set of <<i, j, value>> with nonzero value, u |-> set of cells left open]
Entries(cells) == [k |-> {<<c[1][1], c[1][2], c[2].n>> : c \in {d \in cells : ~d[2].u /\ d[2].n # 0}},
                   u |-> {c[1] : c \in {d \in cells : d[2].u}}]
Expected(w, t, c) ==
  LET T == Term(w, t, c.t)
      cost == Len(T.P) = 1 /\ c.lam = <<>>
      q2 == Norm2([x |-> c.x], SO(w, "BaseQuaternion") + 1)
      q2x == IF q2 = 0 THEN 1 ELSE q2
      e == [x |-> c.x \o c.u, ln |-> c.ln]
      ev(p) == Eval(p, T.D, c.s, q2x, e)
      shift(j) == IF j > NX(w) THEN j - NX(w) ELSE j
      jac(V) == Entries(UNION {{<<<<r, shift(j)>>, ev(Diff(T.P[r], j))>> : j \in V \cap VarsOf(T.P[r])} : r \in 1..Len(T.P)})
      con == IF cost THEN T.P[1] ELSE Contract(T.P, c.lam, 1)
      hes(V1, V2) == Entries(UNION {LET d == Diff(con, j) IN {<<<<shift(j), shift(k)>>, ev(Diff(d, k))>> : k \in V2 \cap VarsOf(d)} : j \in V1 \cap VarsOf(con)})
  IN CASE c.fn = "val" -> Entries({<<<<r, 1>>, ev(T.P[r])>> : r \in 1..Len(T.P)})
       [] c.fn = "jx" -> jac(StateVars(w))
       [] c.fn = "ju" -> jac(ControlVars(w))
       [] c.fn = "hxx" -> hes(StateVars(w), StateVars(w))
       [] c.fn = "huu" -> hes(ControlVars(w), ControlVars(w))
       [] OTHER -> hes(StateVars(w), ControlVars(w))
EntriesOk(exp, out) ==
  LET got == {<<out[i][1], out[i][2], out[i][3]>> : i \in 1..Len(out)} IN
  {g \in got : <<g[1], g[2]>> \notin exp.u} = {k \in exp.k : <<k[1], k[2]>> \notin exp.u}

\* the cells a derivative can be nonzero in, whatever the arguments
Cells(w, t, fn) ==
  LET T == Term(w, t, 1)
      shift(j) == IF j > NX(w) THEN j - NX(w) ELSE j
      jac(V) == UNION {{<<r, shift(j)>> : j \in {k \in V \cap VarsOf(T.P[r]) : NonZero(Diff(T.P[r], k))}} : r \in 1..Len(T.P)}
      hes(V1, V2) == UNION {UNION {LET d == Diff(T.P[r], j) IN {<<shift(j), shift(k)>> : k \in {m \in V2 \cap VarsOf(d) : NonZero(Diff(d, m))}}
                                   : j \in V1 \cap VarsOf(T.P[r])} : r \in 1..Len(T.P)}
  IN CASE fn = "jx" -> jac(StateVars(w)) [] fn = "ju" -> jac(ControlVars(w))
       [] fn = "hxx" -> hes(StateVars(w), StateVars(w)) [] fn = "huu" -> hes(ControlVars(w), ControlVars(w))
       [] OTHER -> hes(StateVars(w), ControlVars(w))
SparsityOk(w, t, fn, rows, out) ==
  LET S == {<<out[i][1], out[i][2]>> : i \in 1..Len(out)}
      cols == IF fn \in {"jx", "hxx"} THEN NX(w) ELSE NU(w)
  IN Cells(w, t, fn) \subseteq S /\ \A s \in S : s[1] \in 1..rows /\ s[2] \in 1..cols
RowsOf(w, t, fn) == IF fn \in {"hxx", "hxu"} THEN NX(w) ELSE IF fn = "huu" THEN NU(w) ELSE Len(Term(w, t, 1).P)
=============================================================================
