-------------------------------- MODULE SharedKin --------------------------------
(***************************************************************************)
(* Property C06: the object which answers every kinematic and dynamic      *)
(* question about the robot.  An answer is a function of the state asked   *)
(* about and of the configuration (model, gravity, floating base,          *)
(* tolerance), whatever happened before.  The tolerance lets the object    *)
(* answer for a state it was given earlier with the same model, provided   *)
(* every component differs by less than it.                                *)
(*                                                                         *)
(* Answers are tuples of integers: the quantity times Scale(query).        *)
(* Object: [m model number (0: none), g, base, tol, cand], cand the states *)
(* the object may be holding.  tol 0: never reuse, 1: tiny, 2: less than 2 *)
(* (joint angles are in quarter turns, 1 < 2 / (pi/2) < 2)                 *)
(***************************************************************************)
EXTENDS Robot
NoSeed == <<"none", 0>>
V(p) == IF p = Z THEN <<0, 0, 0>> ELSE p
\* representations: "body", "mixed", "inertial"
RepScale(rep) == CASE rep = "body" -> 1 [] rep = "mixed" -> 4 [] OTHER -> 16
KinOf(o, st, a) == [K |-> Kin(o.rob, o.base, st, a, NoSeed), R4 |-> BaseRot4(st.q, 0, 0)[1], st |-> st, rob |-> o.rob, B |-> o.base]
T(m) == Tr3(m)
MVx(m, v) == MV(m, v)
\* ------------------------------------------------------------ unit base motions (times 4)
E(k, n) == [i \in 1..n |-> IF i = k THEN 4 ELSE 0] @@ <<>>
UnitMotion(x, rep, k) ==
  LET nj == NL(x.rob) - 1
      e(i) == Unit3(i)   O == <<0, 0, 0>>
      none == [v |-> O, w |-> O, sd |-> E(0, nj)]
  IN IF k > 6 THEN [none EXCEPT !.sd = E(k - 6, nj)]
     ELSE IF rep = "body" THEN (IF k <= 3 THEN [none EXCEPT !.v = VScl(4, e(k))] ELSE [none EXCEPT !.w = VScl(4, e(k - 3))])
     ELSE IF k <= 3 THEN [none EXCEPT !.v = MVx(T(x.R4), e(k))]
     ELSE [none EXCEPT !.w = MVx(T(x.R4), e(k - 3)), !.v = IF rep = "mixed" THEN O ELSE MVx(T(x.R4), Cross(e(k - 3), x.st.bp))]
\* the state whose motion is m, base angular velocity separately
Moving(x, m) == [x EXCEPT !.st.bv = m.v, !.st.sd = m.sd]
Om16Of(m) == Const(VScl(16, m.w))
\* --------------------------------------------------------------------- answers
\* in base coordinates at the point p -> in the representation of frame f
Twist(x, rep, f, v, w) ==
  CASE rep = "body" -> MVx(T(f.R[1]), v) \o MVx(T(f.R[1]), w)
    [] rep = "mixed" -> MVx(x.R4, v) \o MVx(x.R4, w)
    [] OTHER -> LET p4 == VAdd(VScl(4, x.st.bp), MVx(x.R4, f.p[1]))  v4 == MVx(x.R4, v)  w4 == MVx(x.R4, w) IN
                VAdd(VScl(4, v4), VScl(-1, Cross(w4, p4))) \o VScl(4, w4)
Momentum(x, rep, P, L) ==
  CASE rep = "body" -> P \o L
    [] rep = "mixed" -> MVx(x.R4, P) \o MVx(x.R4, L)
    [] OTHER -> LET P4 == MVx(x.R4, P)  L4 == MVx(x.R4, L) IN VScl(4, P4) \o VAdd(VScl(4, L4), VScl(4, Cross(x.st.bp, P4)))
FrameTwist(x, om, rep, fr) ==
  LET f == FramePose(x.rob, x.K, fr)  l == LinkOfFrame(x.rob, fr) IN
  Twist(x, rep, f, V(Vel16(x.rob, x.B, x.K, x.st, NoSeed, NoSeed, om, l, f.p)[1]), V(Omega16(x.rob, x.B, x.K, x.st, NoSeed, NoSeed, om, l)[1]))
Lin(x, om) == V(Lin16(x.rob, x.B, x.K, x.st, NoSeed, NoSeed, om)[1])
Ang(x, om) == V(Ang16(x.rob, x.B, x.K, x.st, NoSeed, NoSeed, om)[1])
BaseOm(st) == BaseOmega16(st, NoSeed, NoSeed)
RelTwist(x, ref, fr, rep, j) ==
  LET y == Moving(x, [v |-> <<0, 0, 0>>, w |-> <<0, 0, 0>>, sd |-> [i \in 1..(NL(x.rob) - 1) |-> IF i = j THEN 1 ELSE 0] @@ <<>>])
      f == FramePose(x.rob, x.K, fr)  r == FramePose(x.rob, x.K, ref)
      lf == LinkOfFrame(x.rob, fr)  lr == LinkOfFrame(x.rob, ref)
      vel(l) == V(RelVel(x.rob, x.B, x.K, y.st, NoSeed, NoSeed, l, f.p)[1])
      om(l) == V(RelOmega(x.rob, x.B, x.K, y.st, NoSeed, NoSeed, l)[1])
      v == VAdd(vel(lf), VScl(-1, vel(lr)))   w == VAdd(om(lf), VScl(-1, om(lr)))
      vr == VAdd(v, Cross(w, VAdd(r.p[1], VScl(-1, f.p[1]))))
  IN CASE rep = "body" -> MVx(T(f.R[1]), v) \o MVx(T(f.R[1]), w)
       [] rep = "mixed" -> MVx(T(r.R[1]), v) \o MVx(T(r.R[1]), w)
       [] OTHER -> MVx(T(r.R[1]), vr) \o MVx(T(r.R[1]), w)
\* column k of the mass matrix, times 64 RepScale
MassColumn(x, rep, k) ==
  LET m == UnitMotion(x, rep, k)  y == Moving(x, m)  om == Om16Of(m)
      unit(j) == [x.st EXCEPT !.bv = <<0, 0, 0>>, !.sd = [i \in 1..(NL(x.rob) - 1) |-> IF i = j THEN 1 ELSE 0] @@ <<>>]
      row(j) == FoldLeft(LAMBDA acc, i :
                   LET c == LinkCom(x.rob, x.K, i)  u == unit(j)
                       vj == V(RelVel(x.rob, x.B, x.K, u, NoSeed, NoSeed, i, c)[1])   wj == V(RelOmega(x.rob, x.B, x.K, u, NoSeed, NoSeed, i)[1])
                       vk == V(Vel16(x.rob, x.B, x.K, y.st, NoSeed, NoSeed, om, i, c)[1])   wk == V(Omega16(x.rob, x.B, x.K, y.st, NoSeed, NoSeed, om, i)[1])
                       R == x.K[i].R[1]
                   IN acc + x.rob.links[i].m * Dot3(vj, vk) + Dot3(MVx(T(R), wj), MVx(x.rob.links[i].I, MVx(T(R), wk))),
                   0, [i \in 1..NL(x.rob) |-> i])
  IN Momentum(x, rep, Lin(y, om), Ang(y, om)) \o FoldLeft(LAMBDA acc, j : Append(acc, RepScale(rep) * row(j)), <<>>, [j \in 1..(NL(x.rob) - 1) |-> j])
\* loads on a set of links (times 400, gravity in hundredths, base coordinates): gravity and external wrenches, given in the link frames
Load(x, g4, ext, S, o) ==   \* [F, N about o] as jets
  LET f(l) == Const(SubSeq(ext[l], 1, 3))  n(l) == Const(SubSeq(ext[l], 4, 6))
      F(l) == JVAdd(Const(VScl(x.rob.links[l].m, g4)), JVScl(400, JMV(x.K[l].R, f(l))))
      N(l) == JVAdd(JCross(JVSub(LinkCom(x.rob, x.K, l), o), Const(VScl(x.rob.links[l].m, g4))),
                    JVScl(400, JVAdd(JCross(JVSub(x.K[l].p, o), JMV(x.K[l].R, f(l))), JMV(x.K[l].R, n(l)))))
  IN [F |-> SumOver(F, S), N |-> SumOver(N, S)]
TorqueOf(x, g4, ext, j) ==   \* jet, times 400; joint of link j
  JSScl(IF Desc(x.rob, j, x.B) THEN 1 ELSE -1, JDot(x.K[j].ax, Load(x, g4, ext, Far(x.rob, x.B, j), x.K[j].o).N))
Beyond(rob, B, l) ==   \* the links which l carries, itself included
  IF l = B THEN 1..NL(rob)
  ELSE IF ~Desc(rob, l, B) /\ l # 1 THEN {d \in 1..NL(rob) : Desc(rob, l, d)}
  ELSE LET c == CHOOSE c \in 1..NL(rob) : rob.links[c].parent = l /\ Desc(rob, c, B) IN {d \in 1..NL(rob) : ~Desc(rob, c, d)}
LinkWrench(x, g4, ext, l) ==
  LET w == Load(x, g4, ext, Beyond(x.rob, x.B, l), x.K[l].p)  RT == T(x.K[l].R[1]) IN
  VScl(-1, MVx(RT, V(w.F[1]))) \o VScl(-1, MVx(RT, V(w.N[1])))
Flat(m) == m[1] \o m[2] \o m[3]
Dirs(rob) == [j \in 1..(NL(rob) - 1) |-> j]
Answer(o, c, st) ==
  LET x == KinOf(o, st, IF c.kind \in {"veld", "momd", "statd"} THEN <<"s", c.col>> ELSE NoSeed)
      rob == o.rob
      g4 == MVx(T(x.R4), o.g)
      D(p) == IF p = Z THEN <<0, 0, 0>> ELSE p
      a == <<"s", c.col>>
  IN
  CASE c.kind = "com" -> VAdd(VScl(4 * Mass(rob), st.bp), MVx(x.R4, MCom(rob, x.K)[1]))
    [] c.kind = "comj" -> LET m == UnitMotion(x, c.rep, c.col) IN MVx(x.R4, Lin(Moving(x, m), Om16Of(m)))
    [] c.kind = "wt" -> LET f == FramePose(rob, x.K, c.fr) IN Flat(MM(x.R4, f.R[1])) \o VAdd(VScl(4, st.bp), MVx(x.R4, f.p[1]))
    [] c.kind = "bt" -> Flat(x.R4) \o VScl(4, st.bp)
    [] c.kind = "rel" -> LET f == FramePose(rob, x.K, c.fr)  r == FramePose(rob, x.K, c.ref) IN
                         Flat(MM(T(r.R[1]), f.R[1])) \o MVx(T(r.R[1]), VAdd(f.p[1], VScl(-1, r.p[1])))
    [] c.kind = "jac" -> LET m == UnitMotion(x, c.rep, c.col) IN FrameTwist(Moving(x, m), Om16Of(m), c.rep, c.fr)
    [] c.kind = "relj" -> RelTwist(x, c.ref, c.fr, c.rep, c.col)
    [] c.kind = "vel" -> FrameTwist(x, BaseOm(st), c.rep, c.fr)
    [] c.kind = "veld" -> LET f == FramePose(rob, x.K, c.fr)  l == LinkOfFrame(rob, c.fr)  om == BaseOm(st)
                              v == JMV(JTr(f.R), Vel16(rob, x.B, x.K, st, a, NoSeed, om, l, f.p))
                              w == JMV(JTr(f.R), Omega16(rob, x.B, x.K, st, a, NoSeed, om, l))
                          IN D(v[2]) \o D(w[2])
    [] c.kind = "mom" -> Momentum(x, c.rep, Lin(x, BaseOm(st)), Ang(x, BaseOm(st)))
    [] c.kind = "momj" -> LET m == UnitMotion(x, c.rep, c.col)  y == Moving(x, m)  om == Om16Of(m) IN Momentum(x, c.rep, Lin(y, om), Ang(y, om))
    [] c.kind = "momd" -> LET om == BaseOm(st) IN D(Lin16(rob, x.B, x.K, st, a, NoSeed, om)[2]) \o D(Ang16(rob, x.B, x.K, st, a, NoSeed, om)[2])
    [] c.kind = "mm" -> MassColumn(x, c.rep, c.col)
    [] c.kind = "stat" -> FoldLeft(LAMBDA acc, j : Append(acc, Scal(TorqueOf(x, g4, c.ext, j + 1)[1])), LinkWrench(x, g4, c.ext, x.B), Dirs(rob))
    [] c.kind = "statl" -> IF c.fr = x.B THEN <<0, 0, 0, 0, 0, 0>>   \* nothing holds the base but the base wrench
                           ELSE LinkWrench(x, g4, c.ext, c.fr)
    [] OTHER -> FoldLeft(LAMBDA acc, j : Append(acc, Scal(TorqueOf(x, g4, c.ext, j + 1)[2])), <<>>, Dirs(rob))   \* statd
Scale(rob, c) ==
  CASE c.kind = "com" -> 4 * Mass(rob)
    [] c.kind = "comj" -> 256 * Mass(rob)
    [] c.kind \in {"wt", "bt"} -> 4
    [] c.kind \in {"stat", "statl", "statd"} -> 400
    [] c.kind \in {"rel", "relj"} -> 1
    [] c.kind \in {"jac", "momj", "mm"} -> 64 * RepScale(c.rep)
    [] c.kind \in {"vel", "mom"} -> 16 * RepScale(c.rep)
    [] OTHER -> 16    \* veld momd
\* ------------------------------------------------------------------- histories
AbsD(a, b) == IF a < b THEN b - a ELSE a - b
CloseV(u, v, d) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : AbsD(u[i], v[i]) <= d
Close(s, t, tol) == tol # 0 /\ LET d == tol - 1 IN
  /\ CloseV(s.bp, t.bp, d) /\ CloseV(s.q, t.q, d) /\ CloseV(s.s, t.s, d)
  /\ CloseV(s.bv, t.bv, d) /\ CloseV(s.bqd, t.bqd, d) /\ CloseV(s.sd, t.sd, d)
Reusable(o, st) == {c \in o.cand : Close(c, st, o.tol)}
NewObj == [m |-> 0, rob |-> [links |-> <<>>], g |-> <<0, 0, -981>>, base |-> 1, tol |-> 1, cand |-> {}, known |-> FALSE]
\* does the answer come from the state the object holds? (static forces may be computed afresh)
NeedsState(kind) == kind \notin {"stat", "statl", "statd"}
\* sys: [models, objs].  The states for which the answer given is right
Fits(sys, c, out) == LET o == sys.objs[c.obj] IN {st \in {c.st} \cup Reusable(o, c.st) : Answer(o, c, st) = out}
\* this one mixes both kinds of data, its answer lies between those for the two states
Loose(o, c) == c.kind = "statd" /\ Reusable(o, c.st) \ {c.st} # {}
RightSize(o, st) == Len(st.s) = NL(o.rob) - 1 /\ Len(st.sd) = NL(o.rob) - 1
Check(sys, e) ==
  LET c == e.cmd IN
  CASE c.op \in {"reset", "model", "new", "load", "copy", "grav"} -> e.ret = 1
    [] c.op = "tol" -> e.ret = (IF c.tol < 0 THEN 0 ELSE 1)
    [] c.op = "base" -> e.ret = (IF c.link \in 1..NL(sys.objs[c.obj].rob) THEN 1 ELSE 0)
    [] c.op = "upd" -> e.ret = (IF RightSize(sys.objs[c.obj], c.st) THEN 1 ELSE 0)
    [] c.op = "same" -> e.ret = 1 => Reusable(sys.objs[c.obj], c.st) # {}
    [] c.op = "cur" -> ~sys.objs[c.obj].known \/ e.out \in sys.objs[c.obj].cand
    [] c.op = "cfg" -> LET o == sys.objs[c.obj] IN e.out = <<o.g[1], o.g[2], o.g[3], o.base, o.base, NL(o.rob) - 1, o.tol>>
    [] c.op = "q" -> e.ret = 1 /\ (Loose(sys.objs[c.obj], c) \/ Fits(sys, c, e.out) # {})
    [] OTHER -> FALSE
SetO(sys, i, o) == [sys EXCEPT !.objs = [@ EXCEPT ![i] = o]]
Apply(sys, e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> [models |-> <<>>, objs |-> <<>>]
    [] c.op = "model" -> [sys EXCEPT !.models = Append(@, c.rob)]
    [] c.op = "new" -> [sys EXCEPT !.objs = Append(@, NewObj)]
    [] c.op = "load" -> SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.m = c.m, !.rob = sys.models[c.m], !.base = 1, !.cand = {}, !.known = FALSE])
    [] c.op = "copy" -> [sys EXCEPT !.objs = Append(@, [sys.objs[c.obj] EXCEPT !.cand = {}, !.known = FALSE])]
    [] c.op = "grav" -> SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.g = c.g])
    [] c.op = "tol" -> IF e.ret = 1 THEN SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.tol = c.tol]) ELSE sys
    [] c.op = "base" -> IF e.ret = 1 THEN SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.base = c.link]) ELSE sys
    [] c.op = "upd" -> IF e.ret = 1 THEN SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.cand = {c.st} \cup Reusable(sys.objs[c.obj], c.st), !.known = TRUE]) ELSE sys
    [] c.op = "cur" -> IF ~sys.objs[c.obj].known THEN sys ELSE SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.cand = {e.out}])
    [] c.op = "q" -> SetO(sys, c.obj, [sys.objs[c.obj] EXCEPT !.cand = IF NeedsState(c.kind) THEN Fits(sys, c, e.out) ELSE @ \cup {c.st},
                                                                     !.known = @ \/ NeedsState(c.kind)])
    [] OTHER -> sys
=============================================================================
