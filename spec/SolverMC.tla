-------------------------------- MODULE SolverMC --------------------------------
EXTENDS RTermsMC, Solver
CONSTANTS Focus   \* "life", "bounds", "terms", "plan"
AbsTr(m) == AbsV(m[1][1]) + AbsV(m[2][2]) + AbsV(m[3][3])
EvenRots == {m \in CubeRots : AbsTr(m) # 1}
R1(sa, sb) == [a |-> <<RE(sa)>>, b |-> <<RE(sb)>>]
RV(n, sa, sb) == [a |-> Vec(n, sa), b |-> Vec(n, sb)]
B0 == {0, 0, 1, -1}
MassesOf(nl) == CASE nl = 2 -> {<<1, 1>>, <<2, 2>>, <<3, 1>>, <<2, 3>>} [] nl = 3 -> {<<1, 2, 1>>, <<2, 1, 2>>, <<1, 1, 2>>} [] nl = 4 -> {<<1, 1, 1, 1>>, <<2, 1, 1, 1>>, <<1, 1, 1, 2>>} [] OTHER -> {<<1>>, <<2>>, <<4>>}
RobotFor(nj) ==
  One({[rb EXCEPT !.links = [i \in 1..(nj + 1) |-> [rb.links[i] EXCEPT !.m = ms[i]]]] @@ [base |-> RE({1, RE(1..(nj + 1))})]
       : rb \in {RobotOf(nj + 1, 2)}, ms \in {RE(MassesOf(nj + 1))}})
\* a range which ends at a control instant makes iDynTree fill long periods twice: none there
Rg(dt) == IF (Focus = "terms" \/ Focus = "bounds") /\ dt # <<2, 1>> THEN RE({<<>>, RE({<<dt[1] * a, dt[1] * b>> : a \in 0..4, b \in 4..7}), RE({<<dt[1] * a, dt[1] * b>> : a \in 0..2, b \in 2..3})}) ELSE <<>>
Names == {CostNames[i] : i \in 1..Len(CostNames)}
RobCosts == {"fori", "fvel", "statt"}
JntCosts == {"jreg", "post"}
\* family 1: costs of the robot, 2: costs on the joint angles
CostsOf(fam, n) ==
  LET dens == RE({0, 1, 2, 3, 6})
      may == Names \ ((IF fam = 1 THEN JntCosts ELSE RobCosts) \cup (IF n < 3 THEN {"yawl", "yawr"} ELSE {}))
  IN [nm \in Names |-> <<IF Focus \in {"terms", "life"} /\ nm \in may /\ RE(1..6) <= dens THEN 1 ELSE 0, RE(1..7)>>]
ScaleSets == {<<1, 1, 1>>, <<2, 2, 5>>, <<3, 3, 50>>, <<50, 64, 3>>, <<64, 50, 1>>, <<50, 50, 2>>}
Cfg(dummy) ==
  One({[op |-> "spec", n |-> n, nj |-> nj, refuse |-> IF Focus = "life" THEN RE({0, 0, 1}) ELSE 0, fam |-> fam,
        robot |-> rob, lf |-> fe[1], rf |-> fe[2], lp |-> lp, rp |-> rp, ref |-> ro[1], oth |-> ro[2], fr |-> RE(1..(nj + 3)),
        lat |-> RE(0..2), mind |-> RE({1, 4}), max |-> dt[2], P |-> dt[1], H |-> RE(IF Focus = "bounds" THEN 1..6 ELSE IF Focus = "life" THEN 1..3 ELSE 1..4), act |-> RE(0..4),
        comp |-> RE({"fc", "dc", "cc", "dyn"}), plan |-> RE({"dyn", "pv", "cpc"}), kt |-> ks[1], ks |-> ks[2], kn |-> ks[3], diss |-> RE(0..5),
        cgain |-> RE(0..5), dcub |-> RE(0..5), cctol |-> RE(0..5), cpctol |-> RE(0..5), mu |-> RE({<<1, 2>>, <<3, 10>>, <<1, 1>>, <<3, 4>>}),
        fmax |-> Vec(3, 1..9), vmax |-> Vec(3, 1..9), w_swing |-> Vec(3, 0..3), mindist |-> RE(0..5), frh |-> RE(0..5),
        comtol |-> RE(0..5), momtol |-> RE(0..5), qntol |-> RE(0..5), pptol |-> RE(0..5), minh |-> RE(0..5), maxam |-> RE(1..9),
        jl |-> [j \in 1..nj |-> <<RE(-9..0), RE(1..9)>>], jvl |-> [j \in 1..nj |-> <<RE(-9..0), RE(1..9)>>],
        box |-> IF Focus = "bounds" THEN RE({0, 1, 1}) ELSE RE({0, 1}), tol_com |-> R1(1..5, {0, 0, 1}), rg_box |-> IF Focus = "bounds" THEN RE({<<>>, RE({<<a, b>> : a \in 0..4, b \in 4..8}), RE({<<a, b>> : a \in 0..2, b \in 2..4})}) ELSE <<>>,
        c |-> CostsOf(fam, n), rg_com |-> Rg(dt), rg_comvel |-> Rg(dt), rg_point |-> Rg(dt), rg_bpos |-> Rg(dt),
        w_com |-> Vec(3, 0..3), w_comvel |-> Vec(3, 0..3), w_jreg |-> Vec(nj, 0..3), w_jvel |-> Vec(nj, 0..3), w_statt |-> Vec(nj, 0..2), w_fder |-> Vec(3, 0..3),
        w_pacc |-> Vec(3, 0..3), w_bpos |-> Vec(3, 0..3), w_blin |-> Vec(3, 0..3),
        r_com |-> RV(3, -3..3, B0), r_comvel |-> RV(3, -2..2, B0), r_joints |-> RV(nj, -2..2, B0), r_jvel |-> RV(nj, -2..2, B0), r_fder |-> RV(3, -2..2, B0),
        r_pacc |-> RV(3, -2..2, B0), r_point |-> RV(3, -2..2, B0), w_point |-> RV(3, 0..3, {0, 0, 1}), r_yawl |-> R1(-2..2, B0), r_yawr |-> R1(-2..2, B0),
        r_bpos |-> RV(3, -2..2, B0), r_bquat |-> RV(4, -1..2, {0}), r_blin |-> RV(3, -2..2, B0), r_bqv |-> RV(4, -2..2, {0}), w_fori |-> R1(1..3, 0..1),
        rots |-> <<RE(EvenRots), RE(EvenRots), RE(EvenRots), RE(EvenRots)>>, ratl |-> Vec(n, 0..4), ratr |-> Vec(n, 0..4), swingh |-> RE(0..3), gain |-> RE(0..2)]
       : <<n, nj, fam, rob, fe, lp, rp, ro, dt, ks>> \in
         {<<d[1], d[2], RE(1..2), RobotFor(d[2]), RE({z \in (1..(d[2] + 1)) \X (1..(d[2] + 1)) : z[1] # z[2]}),
            IF d[1] < 3 THEN [i \in 1..d[1] |-> P3(-2..2)] ELSE Shape(d[1]), IF d[1] < 3 THEN [i \in 1..d[1] |-> P3(-2..2)] ELSE Shape(d[1]),
            RE({z \in (1..(d[2] + 3)) \X (1..(d[2] + 3)) : z[1] # z[2]}), RE({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>}), RE(ScaleSets)>>
          : d \in {CASE Focus = "terms" -> RE({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>, <<4, 1>>})
                     [] Focus = "life" -> RE({<<1, 1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>})
                     [] OTHER -> <<RE(1..3), RE(1..3)>>}}})
QuatRE(dummy) == RE(Q14)
StateVec(n, nj, S) == One({[i \in 1..DimX(n, nj) |-> IF i \in (QOff(n) + 1)..(QOff(n) + 4) THEN q[i - QOff(n)] ELSE RE(S)] : q \in {QuatRE(1)}})
HeightVars(n) == {6 * i : i \in 1..(2 * n)}
JOff(n) == QOff(n) + 4
\* joint positions for a whole point: none may spoil the cost on the orientation of a frame
Parity(c, js) == LET st == [bp |-> <<0, 0, 0>>, q |-> <<1, 0, 0, 0>>, s |-> js, bv |-> <<0, 0, 0>>, bqd |-> <<0, 0, 0, 0>>, sd |-> [i \in 1..c.nj |-> 0]]
                     f == FramePose(c.robot, Kin(c.robot, BaseLink(c.robot), st, <<"none", 0>>, <<"none", 0>>), c.fr)
                 IN AbsTr(f.R[1]) # 1
JointDraw(c) == One({LET ok == SelectSeq(d, LAMBDA js : Parity(c, js)) IN IF ok = <<>> THEN d[1] ELSE ok[1] : d \in {<<Vec(c.nj, -1..2), Vec(c.nj, -1..2), Vec(c.nj, -1..2), Vec(c.nj, -1..2)>>}})
ModesOf(c, first) == IF first \/ (c.fam = 1 /\ c.ks >= 40) THEN {"A"} ELSE IF c.ks # c.kt \/ c.ks >= 40 THEN {"A", "B"} ELSE IF c.fam = 1 THEN {"A", "L", "L"} ELSE {"A", "B", "L", "L"}
JntOn(c) == \E nm \in JntCosts : On(c, nm)
Point(c, ms, first) ==
  One({[mode |-> m,
        ln |-> FlattenSeq([i \in 1..Len(ms) |-> SelectSeq([k \in 1..(2 * c.n) |-> <<i, 6 * k, lns[i][k], c.ks>>], LAMBDA z : z[3] # 0)]),
        x |-> [i \in 1..Len(ms) |-> LET v == xs[i] IN
                [k \in 1..DimX(c.n, c.nj) |-> IF k \in HeightVars(c.n) /\ (c.ks < 40 \/ m = "L") THEN 0
                                              ELSE IF k > JOff(c.n) /\ m # "B" THEN js[k - JOff(c.n)] ELSE v[k]]],
        u |-> [i \in 1..Len(ms) |-> IF ms[i].k = "C" THEN Vec(DimU(c.n, c.nj), -2..2) ELSE <<>>]]
       : <<m, js, xs, lns>> \in
         {<<mm, IF JntOn(c) THEN [j \in 1..c.nj |-> 0] ELSE JointDraw(c), [i \in 1..Len(ms) |-> StateVec(c.n, c.nj, -2..2)],
            [i \in 1..Len(ms) |-> [k \in 1..(2 * c.n) |-> IF mm = "L" THEN RE({0, 1, -1}) ELSE 0]]>>
          : mm \in {RE(ModesOf(c, first))}}})
NPts == IF Focus = "terms" THEN 3 ELSE 1
\* quaternions of unit norm where the activations are irrational enough already
UnitIfL(c, p) == IF p.mode # "L" THEN p
                 ELSE [p EXCEPT !.x = [i \in 1..Len(p.x) |-> WithQuat(c.n, p.x[i], RE(QuatsOf({1})))]]
SolveCmd(st) ==
  LET c == st.cfg  ms == MeshesOf(st) IN
  {[op |-> "solve", kinds |-> [i \in 1..Len(ms) |-> ms[i].k], out |-> IF Focus = "life" THEN RE({"ok", "ok", "ok", "fail", "noprimal"}) ELSE "ok", pts |-> ps]
   : ps \in {[k \in 1..NPts |-> UnitIfL(c, Point(c, ms, k = 1))]}}
GuessCmd(n, nj, st) ==
  {[op |-> "guess", n |-> n, nj |-> nj, kind |-> k, at |-> RE(st.init.t..(st.init.t + 4)), x |-> StateVec(n, nj, -5..5), u |-> Vec(DimU(n, nj), -5..5)]
   : k \in {IF Focus = "life" THEN RE({"ok", "ok", "ok", "bad", "null_s", "null_c"}) ELSE "ok"}}
InitCmd(n, nj) == {[op |-> "init", n |-> n, nj |-> nj, x |-> StateVec(n, nj, -3..4), t |-> 2 * RE(0..4)]}
OptCmd(dummy) == {[op |-> "opt", id |-> id, inf |-> 17 + id, refuse |-> IF Focus = "life" THEN RE({0, 0, 0, 1}) ELSE 0] : id \in {IF Focus = "life" THEN RE({0, 1, 1, 2, 2, 3}) ELSE RE(1..3)}}
VARIABLES st, hs
svars == <<st, hs, w, ts, hist>>
SInit == st = InitSt /\ hs = <<>> /\ GInit
\* the answer the specification gives (an optional answer: refused)
Ret(c) == IF FALSE \in Rets(st, c) THEN FALSE ELSE TRUE
Do(c) == hs' = Append(hs, c) /\ st' = Step(st, c, Ret(c)) /\ UNCHANGED <<w, ts, hist>>
SGenNext ==
  /\ Len(hs) < GenLen
  /\ \E r \in {RE(1..20)} :
     IF st.opt = 0 /\ (Focus # "life" \/ (hs # <<>> /\ r < 14)) THEN \E c \in OptCmd(1) : Do(c)
     ELSE IF ~st.prep /\ (Focus # "life" \/ (r < 9 /\ (hs = <<>> \/ Last(hs).op # "spec"))) THEN \E c \in {Cfg(1)} : Do(c)
     ELSE IF r <= 3 THEN \E c \in {Cfg(1)} : Do(c)
     ELSE IF r \in 4..7 THEN \E c \in InitCmd(IF st.prep /\ ~(r = 4 /\ Focus = "life") THEN st.init.n ELSE RE(1..2), IF st.prep THEN st.init.nj ELSE 1) : Do(c)
     ELSE IF r \in 8..10 THEN \E c \in GuessCmd(IF st.prep THEN st.cfg.n ELSE 1, IF st.prep THEN st.cfg.nj ELSE 1, st) : Do(c)
     ELSE IF r = 11 THEN \E c \in OptCmd(1) : Do(c)
     ELSE IF r = 12 /\ Focus = "life" THEN \E c \in {[op |-> "integ", null |-> RE({0, 0, 1})]} : Do(c)
     ELSE IF r = 13 /\ Focus = "life" THEN Do([op |-> "bad"])
     ELSE IF st.prep /\ st.opt # 0 THEN \E c \in SolveCmd(st) : Do(c)
     ELSE IF st.prep THEN \E c \in OptCmd(1) : Do(c)
     ELSE Do([op |-> "solve", kinds |-> <<>>, out |-> "ok", pts |-> <<>>])
SGenSpec == SInit /\ [][SGenNext]_svars
SEmit == Len(hs) = GenLen => PrintT("@@" \o ToJson(hs))
=============================================================================
