----------------------------- MODULE ProblemThm -----------------------------
(* Facts about the specification of the assembled problem, checked by TLC: over all small discretisations, all the
   rotations which are used, and generated settings and points. *)
EXTENDS SolverMC
CONSTANTS What, Draws
VARIABLES x
D == [H : 1..6, P : 1..3, max : 1..3, t0 : {0, 3}, act : 0..4, lo : 0..4, len : 0..3, at : 0..6]
TInit == SInit /\ x = <<>>
TNext == /\ x = <<>> /\ UNCHANGED svars
         /\ CASE What = "bounds" -> \E d \in D : x' = <<d>>
              [] What = "plan" -> \E q \in Q14, r \in Q14 : x' = <<q, r>>
              [] OTHER -> \E i \in 1..Draws : \E c \in {Cfg(i)} : \E p \in {Point(c, Meshes(c, 0), FALSE)} : x' = <<c, p>>
TSpec == TInit /\ [][TNext]_<<svars, x>>
Is(wh) == What = wh /\ x # <<>>
Ms == LET d == x[1] IN Meshes(d, d.t0)
\* the discretisation covers the horizon in order, controls at every period
Discretised == Is("bounds") => LET d == x[1]  ms == Ms  N == Len(ms) IN
  /\ ms[1] = [t |-> d.t0, k |-> "C"] /\ ms[N].t = d.t0 + d.H
  /\ \A i \in 2..N : ms[i - 1].t < ms[i].t /\ ms[i].t - ms[i - 1].t <= d.P
  /\ \A t \in 0..d.H : t % d.P = 0 => \E i \in 1..N : ms[i] = [t |-> d.t0 + t, k |-> "C"]
  /\ \A i \in 1..N : ms[i].k = "C" => (ms[i].t - d.t0) % d.P = 0
\* it moves with the initial time
Shifts == Is("bounds") => LET d == x[1]  a == Meshes(d, 0)  b == Ms IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : b[i].t = a[i].t + d.t0 /\ a[i].k = b[i].k
BCfg == LET d == x[1] IN [n |-> 2, nj |-> 1, H |-> d.H, act |-> d.act, box |-> 1, rg_box |-> <<d.lo, d.lo + d.len>>, r_com |-> [a |-> <<1, 2, 3>>, b |-> <<0, 1, -1>>], tol_com |-> [a |-> <<2>>, b |-> <<0>>],
           minh |-> 4, maxam |-> 5, jl |-> <<<<-3, 2>>>>, jvl |-> <<<<-1, 6>>>>, fmax |-> <<1, 2, 3>>, vmax |-> <<4, 5, 6>>]
\* lower bounds never exceed upper ones, the box holds inside its window only, frozen controls stay frozen
Windows == Is("bounds") => LET d == x[1]  c == BCfg  t == d.t0 + (IF d.at > d.H THEN d.H ELSE d.at)
                               l == StateBound(c, 1, t)  u == StateBound(c, 2, t)  cl == ControlBound(c, 1, d.t0, t)  cu == ControlBound(c, 2, d.t0, t)  com == 12 * c.n + 6 IN
  /\ Len(l) = DimX(2, 1) /\ Len(u) = DimX(2, 1) /\ Len(cl) = DimU(2, 1) /\ Len(cu) = DimU(2, 1)
  /\ \A i \in 1..Len(l) : l[i] <= u[i]
  /\ \A i \in 1..Len(cl) : cl[i] <= cu[i]
  /\ (u[com + 3] # INFTY) <=> (d.lo <= t /\ t <= d.lo + d.len)
  /\ u[com + 3] = INFTY => l[com + 1] = -INFTY /\ l[com + 3] = c.minh
  /\ u[com + 3] # INFTY => \A k \in 1..3 : u[com + k] - l[com + k] = 4
  /\ Frozen(c, d.t0, t) => \A s \in t..(t + 3) : ControlBound(c, 2, d.t0, s) = cu
  /\ Frozen(c, d.t0, t) <=> cu[1] = 0
\* the two ways of writing a rotation, and only these, are the same rotation
Rotations == Is("plan") => LET q == x[1]  r == x[2] IN (QRot(q) = QRot(r)) <=> (HalfUnits(r) \in {HalfUnits(q), Neg4(HalfUnits(q))})
Layouts == Is("plan") => \A n \in 1..4, nj \in 1..4 :
  LET sz(ls) == FoldLeft(LAMBDA a, l : a + l[2], 0, ls)  nm(ls) == {ls[i][1] : i \in 1..Len(ls)} IN
  /\ sz(SLab(n, nj)) = DimX(n, nj) /\ sz(CLab(n, nj)) = DimU(n, nj)
  /\ Cardinality(nm(SLab(n, nj)) \cup nm(CLab(n, nj))) = Len(SLab(n, nj)) + Len(CLab(n, nj))
Off(c, nm) == [c EXCEPT !.c[nm][1] = 0]
OnlyC(c, nm) == [c EXCEPT !.c = [k \in DOMAIN c.c |-> IF k = nm THEN c.c[k] ELSE <<0, c.c[k][2]>>]]
Heavy(c, nm) == [c EXCEPT !.c[nm][2] = @ + 1]
\* every cost adds its own contribution, proportional to its own weight
Additive == Is("terms") => LET c == x[1]  p == x[2]  w1 == WorldOf(c)  ms == Meshes(c, 0)
                               At1(cc) == CostAt(cc, w1, 0, p.x[1], p.u[1], <<>>)
                               all == At1(c) IN
  p.mode = "A" /\ all # UNK =>
    \A nm \in Names : On(c, nm) => LET own == At1(OnlyC(c, nm)) IN
       /\ PairAdd(At1(Off(c, nm)), own) = all
       /\ PairScl(Wt(c, nm) + 1, own) = PairScl(Wt(c, nm), At1(OnlyC(Heavy(c, nm), nm)))
NotNegative == Is("terms") => LET c == x[1]  p == x[2] IN p.mode = "A" => LET v == CostAt(c, WorldOf(c), 0, p.x[1], p.u[1], <<>>) IN v = UNK \/ v[1] >= 0
\* once per foot and point
Once == Is("terms") => LET c == x[1]  K == Constraints(c) IN
  /\ \A k \in {"fric", "cpos"} : \A f \in {"Left", "Right"}, i \in 0..(c.n - 1) : Cardinality({j \in 1..Len(K) : K[j].kind = k /\ K[j].foot = f /\ K[j].pt = i}) = 1
  /\ \A k \in {"mom", "com", "lat", "qn", "frh"} : Cardinality({j \in 1..Len(K) : K[j].kind = k}) = 1
  /\ Len(K) = 5 + 2 * c.n * (2 + (IF c.plan = "dyn" THEN 0 ELSE 1) + (IF c.comp = "dyn" THEN 0 ELSE 1))
==============================================================================
