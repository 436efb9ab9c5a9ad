----------------------------------- MODULE Exprs -----------------------------------
(***************************************************************************)
(* Property C07: the server of shared symbolic quantities.  A quantity is  *)
(* what was asked for, with its arguments, and the derivatives taken of it *)
(* since: nothing else.  Whenever it is evaluated, it has the value of     *)
(* that quantity at the state supplied last (and at the values the free    *)
(* variables have then).                                                   *)
(*                                                                         *)
(* Quantity: [es, kind, fr, ref, j, tw, k, steps]; steps is a sequence of  *)
(* <<variable, column>>: the derivative of that column with respect to the *)
(* variable.  Values are column after column, times Scale.                 *)
(* Server: [st, known]; sys.slots: the states which the shared robot       *)
(* object of each instant may be holding.                                  *)
(***************************************************************************)
EXTENDS SharedKin
TI == INSTANCE Timely
Zeros(n) == SubSeq(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, 1, n)
Fill(p, n) == IF p = Z THEN Zeros(n) ELSE p
FillJ(x, n) == <<Fill(x[1], n), Fill(x[2], n), Fill(x[3], n), Fill(x[4], n)>>
Cat(x, y) == <<Fill(x[1], 3) \o Fill(y[1], 3), Fill(x[2], 3) \o Fill(y[2], 3), Fill(x[3], 3) \o Fill(y[3], 3), Fill(x[4], 3) \o Fill(y[4], 3)>>
JCol(m, k) == JMV(m, Const(Unit3(k)))
O3 == Const(<<0, 0, 0>>)
NoJ == <<Z, Z, Z, Z>>
VarN(v, a, b, kind) == LET e(k) == IF k = 0 THEN Z ELSE [i \in 1..Len(v) |-> IF i = k THEN 1 ELSE 0] @@ <<>> IN
  <<v, e(Idx(a, kind)), e(Idx(b, kind)), Z>>
\* four times the products of the components of the quaternion of a rotation (times n), and whether the first one is not negative
Prods(R, n) == IF R = Z THEN Z ELSE
  LET t == R[1][1] + R[2][2] + R[3][3] IN
  <<n + t, R[3][2] - R[2][3], R[1][3] - R[3][1], R[2][1] - R[1][2],
    n + 2 * R[1][1] - t, R[1][2] + R[2][1], R[1][3] + R[3][1], n + 2 * R[2][2] - t, R[2][3] + R[3][2], n + 2 * R[3][3] - t>>
ProdsJ(R, n) == <<Prods(R[1], n), Prods(R[2], 0), Prods(R[3], 0), Prods(R[4], 0)>>
\* the seeds, when the base twist is the free variable k instead of the one of the robot
TwSeed(a, k) == IF a[1] \in {"s", "sd"} THEN a ELSE IF a[1] = "tw" /\ a[2][1] = k THEN (IF a[2][2] <= 3 THEN <<"bv", a[2][2]>> ELSE <<"om", a[2][2] - 3>>) ELSE NoSeed
\* column j of the quantity h without its steps
Column(o, st, tws, dqs, h, j, a0, b0) ==
  LET free == h.kind \in {"av", "mom"} /\ h.tw > 0
      a == IF free THEN TwSeed(a0, h.tw) ELSE a0
      b == IF free THEN TwSeed(b0, h.tw) ELSE b0
      rob == o.rob   B == o.base
      K == Kin(rob, B, st, a, b)
      x == IF free THEN [st EXCEPT !.bv = SubSeq(tws[h.tw], 1, 3)] ELSE st
      om == IF free THEN JVScl(16, Var3(SubSeq(tws[h.tw], 4, 6), Idx(a, "om"), Idx(b, "om"))) ELSE BaseOmega16(st, a, b)
      R4 == BaseRot4(st.q, Idx(a, "q"), Idx(b, "q"))
      bp == Var3(st.bp, Idx(a, "bp"), Idx(b, "bp"))
      f == FramePose(rob, K, h.fr)   r == FramePose(rob, K, h.ref)
      lf == LinkOfFrame(rob, h.fr)   lr == LinkOfFrame(rob, h.ref)
      R == JMM(JTr(r.R), f.R)   p == JMV(JTr(r.R), JVSub(f.p, r.p))
      e == [st EXCEPT !.sd = [i \in 1..(NL(rob) - 1) |-> IF i = j THEN 1 ELSE 0] @@ <<>>]
      noSd(z) == IF z[1] = "sd" THEN NoSeed ELSE z
      inF(v) == JMV(JTr(f.R), v)
      link == rob.links[h.fr]
      m(v, w) == VScl(link.m, VAdd(v, Cross(w, link.c)))                  \* momentum of the link, in its frame
      ang(v, w) == VAdd(Cross(link.c, m(v, w)), MV(link.I, w))
      u3(k) == IF k \in 1..3 THEN Unit3(k) ELSE <<0, 0, 0>>
      relj(s, za, zb) ==
        Cat(inF(JVSub(RelVel(rob, B, K, s, za, zb, lf, f.p), RelVel(rob, B, K, s, za, zb, lr, f.p))), inF(JVSub(RelOmega(rob, B, K, s, za, zb, lf), RelOmega(rob, B, K, s, za, zb, lr))))
      \* motion subspace of a joint: velocity of the child link with respect to the parent link
      ms == LET y == relj([st EXCEPT !.sd = [i \in 1..(NL(rob) - 1) |-> IF i = h.j THEN 1 ELSE 0] @@ <<>>], NoSeed, NoSeed)[1] IN [v |-> SubSeq(y, 1, 3), w |-> SubSeq(y, 4, 6)]
  IN
  CASE h.kind = "rot" -> FillJ(JCol(R4, j), 3)
    [] h.kind = "nq" -> FillJ(QHat32(st.q, Idx(a, "q"), Idx(b, "q")), 4)
    [] h.kind = "q" -> FillJ(VarN(st.q, a, b, "q"), 4)
    [] h.kind \in {"bp", "wpos"} -> FillJ(bp, 3)
    [] h.kind = "bv" -> FillJ(VarN(st.bv, a, b, "bv"), 3)
    [] h.kind = "qd" -> FillJ(VarN(st.bqd, a, b, "qd"), 4)
    [] h.kind = "s" -> FillJ(VarN(st.s, a, b, "s"), NL(rob) - 1)
    [] h.kind = "sd" -> FillJ(VarN(st.sd, a, b, "sd"), NL(rob) - 1)
    [] h.kind = "bt" -> Cat(JVScl(16, Var3(st.bv, Idx(a, "bv"), Idx(b, "bv"))), om)
    [] h.kind = "wp" -> FillJ(JVAdd(JVScl(4, bp), JMV(R4, f.p)), 3)
    [] h.kind = "wr" -> FillJ(JMV(R4, JCol(f.R, j)), 3)
    [] h.kind = "com" -> FillJ(MCom(rob, K), 3)
    [] h.kind = "adj" -> IF j <= 3 THEN Cat(JCol(R, j), O3) ELSE Cat(JCross(p, JCol(R, j - 3)), JCol(R, j - 3))
    [] h.kind = "adw" -> IF j <= 3 THEN Cat(JCol(R, j), JCross(p, JCol(R, j))) ELSE Cat(O3, JCol(R, j - 3))
    [] h.kind \in {"rp", "rtp"} -> FillJ(p, 3)
    [] h.kind \in {"rr", "rtr"} -> FillJ(JCol(R, j), 3)
    [] h.kind = "rq" -> FillJ(ProdsJ(R, 1), 10)
    [] h.kind = "qe" -> FillJ(ProdsJ(JMM(Const(Tr3(BaseRot4(dqs[h.k], 0, 0)[1])), JMM(R4, f.R)), 16), 10)
    [] h.kind = "rj" -> relj(e, noSd(a), noSd(b))
    [] h.kind = "rv" -> relj(st, a, b)
    [] h.kind = "av" -> Cat(inF(Vel16(rob, B, K, x, a, b, om, lf, f.p)), inF(Omega16(rob, B, K, x, a, b, om, lf)))
    [] h.kind = "mom" -> Cat(Lin16(rob, B, K, x, a, b, om), Ang16(rob, B, K, x, a, b, om))
    [] h.kind = "msv" -> Const(ms.v \o ms.w)
    [] h.kind = "msx" -> Const(IF j <= 3 THEN Cross(ms.w, u3(j)) \o <<0, 0, 0>> ELSE Cross(ms.v, u3(j - 3)) \o Cross(ms.w, u3(j - 3)))
    [] h.kind = "msw" -> Const(IF j <= 3 THEN Cross(ms.w, u3(j)) \o Cross(ms.v, u3(j)) ELSE <<0, 0, 0>> \o Cross(ms.w, u3(j - 3)))
    [] h.kind = "li" -> Const(m(u3(j), u3(j - 3)) \o ang(u3(j), u3(j - 3)))
    [] h.kind = "lib" -> LET F == JMV(f.R, Const(m(u3(j), u3(j - 3))))  N == JMV(f.R, Const(ang(u3(j), u3(j - 3)))) IN Cat(F, JVAdd(N, JCross(f.p, F)))
    [] OTHER -> \* crbi: the whole robot moving as one body
       LET z == [st EXCEPT !.bv = u3(j), !.sd = Zeros(NL(rob) - 1)]  w == Const(VScl(16, u3(j - 3)))
           za == IF a[1] = "s" THEN a ELSE NoSeed  zb == IF b[1] = "s" THEN b ELSE NoSeed IN
       Cat(Lin16(rob, B, K, z, za, zb, w), Ang16(rob, B, K, z, za, zb, w))
Cols(rob, kind) == CASE kind \in {"rot", "wr", "rr", "rtr"} -> 3
                     [] kind \in {"adj", "adw", "msx", "msw", "li", "lib", "crbi"} -> 6
                     [] kind = "rj" -> NL(rob) - 1
                     [] OTHER -> 1
Dim(rob, v) == CASE v = "s" -> NL(rob) - 1 [] v = "sd" -> NL(rob) - 1 [] v \in {"q", "qd"} -> 4 [] v \in {"bp", "bv"} -> 3 [] OTHER -> 6
IsTw(v) == v \in {"tw1", "tw2", "tw3"}
TwOf(v) == CASE v = "tw1" -> 1 [] v = "tw2" -> 2 [] OTHER -> 3
SeedOf(v, k) == IF IsTw(v) THEN <<"tw", <<TwOf(v), k>>>> ELSE <<v, k>>
ScaleE(rob, kind) == CASE kind \in {"rot", "wp", "wr"} -> 4 [] kind = "nq" -> 32 [] kind \in {"bt", "av", "mom", "qe", "crbi"} -> 16 [] kind = "com" -> Mass(rob) [] OTHER -> 1
FlatE(n, f(_)) == FoldLeft(LAMBDA acc, k : acc \o f(k), <<>>, [k \in 1..n |-> k])
ValueOf(sys, h, st) ==
  LET o == sys   s == h.steps
      C(j, a, b) == Column(o, st, sys.tws, sys.dqs, h, j, a, b)
      v0(k) == C(k, NoSeed, NoSeed)[1]
      v1(k) == C(s[1][2], SeedOf(s[1][1], k), NoSeed)[2]
      v2(k) == C(s[1][2], SeedOf(s[1][1], s[2][2]), SeedOf(s[2][1], k))[4]
  IN CASE Len(s) = 0 -> FlatE(Cols(sys.rob, h.kind), v0)
       [] Len(s) = 1 -> FlatE(Dim(sys.rob, s[1][1]), v1)
       [] OTHER -> FlatE(Dim(sys.rob, s[2][1]), v2)
\* ------------------------------------------------------------------- histories
NewSys == [rob |-> [links |-> <<>>], base |-> 1, list |-> <<>>, slots |-> <<>>, es |-> <<>>, hs |-> <<>>, tws |-> <<>>, dqs |-> <<>>]
SlotAt(sys, t) == TI!Serving(sys.list, t)
Given(sys, q) == sys.es[q].known
CheckE(sys, e) ==
  LET c == e.cmd IN
  CASE c.op \in {"reset", "setup", "new", "upd", "updt", "kd", "ask", "der", "tw", "dq"} -> e.ret = 1
    [] c.op = "cur" -> ~Given(sys, c.es) \/ e.out = sys.es[c.es].st
    [] c.op = "ev" -> LET h == sys.hs[c.h] IN ~Given(sys, h.es) \/ (e.ret = 1 /\ e.out = ValueOf(sys, h, sys.es[h.es].st))
    [] OTHER -> FALSE
ApplyE(sys, e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> NewSys
    [] c.op = "setup" -> [NewSys EXCEPT !.rob = c.rob, !.base = c.base, !.list = c.list, !.slots = [i \in 1..Len(c.list) |-> {}] @@ <<>>,
                                        !.tws = c.tws, !.dqs = c.dqs]
    [] c.op = "new" -> [sys EXCEPT !.es = Append(@, [st |-> <<>>, known |-> FALSE, t |-> 0])]
    [] c.op = "upd" -> [sys EXCEPT !.es[c.es] = [st |-> c.st, known |-> TRUE, t |-> c.t], !.slots[SlotAt(sys, c.t)] = @ \cup {c.st}]
    [] c.op = "kd" -> [sys EXCEPT !.slots[SlotAt(sys, c.t)] = {c.st}]
    [] c.op = "updt" -> LET s == sys.slots[SlotAt(sys, c.t)] IN   \* the server takes the state it finds there
       [sys EXCEPT !.es[c.es] = [st |-> IF s = {} THEN <<>> ELSE CHOOSE st \in s : TRUE, known |-> Cardinality(s) = 1, t |-> c.t]]
    [] c.op = "ask" -> [sys EXCEPT !.hs = Append(@, c.h)]
    [] c.op = "der" -> [sys EXCEPT !.hs = Append(@, [sys.hs[c.h] EXCEPT !.steps = Append(@, <<c.v, c.col>>)])]
    [] c.op = "tw" -> [sys EXCEPT !.tws = [@ EXCEPT ![c.k] = c.v]]
    [] c.op = "dq" -> [sys EXCEPT !.dqs = [@ EXCEPT ![c.k] = c.v]]
    \* an evaluation may ask the robot object of the instant about the state
    [] c.op = "ev" -> LET q == sys.es[sys.hs[c.h].es] IN
       IF q.known THEN [sys EXCEPT !.slots[SlotAt(sys, q.t)] = @ \cup {q.st}] ELSE sys
    [] OTHER -> sys
=============================================================================
