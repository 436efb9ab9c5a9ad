------------------------------- MODULE TermsMC -------------------------------
EXTENDS Terms, Json
CONSTANTS GenLen, Kinds, Fns, Ops   \* Ops: what is asked besides the evaluation of the functions in Fns
One(S) == CHOOSE z \in S : TRUE
RECURSIVE Shuf(_)
Shuf(S) == IF S = {} THEN <<>> ELSE One({<<x>> \o Shuf(S \ {x}) : x \in {RandomElement(S)}})
RE(S) == RandomElement(S)
Vec(n, S) == [i \in 1..n |-> RE(S)]
Flatten(ss) == PSum(ss)

ConstraintKinds == {"fc", "fric", "cc", "cpc", "dc", "nv", "pv", "qn", "frh"}
CostKinds == {"cost_compl", "cost_feetdist", "cost_yaw", "cost_mean", "cost_ratio", "cost_phantom", "cost_swing", "cost_point", "cost_comvel", "cost_postural"}
DynKinds == {"dyn"}
PolyKinds == ConstraintKinds \cup CostKinds
AllKinds == ConstraintKinds \cup CostKinds \cup DynKinds

Feet == <<"Left", "Right">>
SLabs(n, nj) == Flatten([k \in 1..2 |-> Flatten([i \in 1..n |-> <<<<Pt(Feet[k], "Force", i - 1), 3>>, <<Pt(Feet[k], "Position", i - 1), 3>>>>])])
                \o <<<<"Momentum", 6>>, <<"CoMPosition", 3>>, <<"BasePosition", 3>>, <<"BaseQuaternion", 4>>, <<"JointsPosition", nj>>>>
CLabs(n, nj) == Flatten([k \in 1..2 |-> Flatten([i \in 1..n |-> <<<<Pt(Feet[k], "ForceControl", i - 1), 3>>, <<Pt(Feet[k], "VelocityControl", i - 1), 3>>>>])])
                \o <<<<"BaseLinearVelocity", 3>>, <<"BaseQuaternionDerivative", 4>>, <<"JointsVelocity", nj>>>>
RECURSIVE SetToSq(_)
SetToSq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1] IN <<x>> \o SetToSq(S \ {x})
SetOf(sq) == {sq[i] : i \in 1..Len(sq)}
Worlds(dummy) == {[op |-> "world", n |-> n, nj |-> nj, mass |-> RE({1, 2, 4}),
                   slab |-> IF sh = 1 THEN SLabs(n, nj) ELSE Shuf(SetOf(SLabs(n, nj))),
                   clab |-> IF sh = 1 THEN CLabs(n, nj) ELSE Shuf(SetOf(CLabs(n, nj)))]
                   : n \in {RE(IF "cost_yaw" \in Kinds THEN 1..4 ELSE 1..3)}, nj \in {RE(1..3)}, sh \in {RE(1..3)}}

\* feet for the yaw cost: integer points, n of them, with the three corners well defined
Square == <<<<1, 7>>, <<7, -1>>, <<-1, -7>>, <<-7, 1>>>>
Square2 == <<<<7, 1>>, <<1, -7>>, <<-7, -1>>, <<-1, 7>>>>
RectA == <<<<4, 2>>, <<4, -3>>, <<-2, -3>>, <<-2, 2>>>>
FeetShapes(n) == IF n = 3 THEN {SubSeq(RectA, 1, 3)} ELSE {RectA, Square, Square2}
Shape(n) == One({[i \in 1..n |-> LET q == s[o[i]] IN <<q[1] + d[1], q[2] + d[2], RE(-1..1)>>]
                 : s \in {RE(FeetShapes(n))}, o \in {Shuf(1..n)}, d \in {<<RE(-2..2), RE(-2..2)>>}})
ActOf(ks) == One({[k |-> k, off |-> RE(1..6) = 1, c |-> RE(0..2)] : k \in {RE(ks)}})
Ks(dummy) == RE({{1, 2, 3}, {2}, {50}, {64}, {1}})
Prm(kind, w) ==
  CASE kind = "fc" -> [sech |-> ActOf(Ks(1)), maxd |-> RE(0..10), diss |-> RE(0..10)]
    [] kind = "fric" -> [mn |-> 3, md |-> 10]
    [] kind \in {"cc", "cpc", "qn"} -> [tol |-> RE(0..5)]
    [] kind = "dc" -> [gain |-> RE(0..10), ub |-> RE(0..5)]
    [] kind = "nv" -> [tanh |-> ActOf(Ks(1)), maxd |-> RE(0..10)]
    [] kind = "pv" -> [tanh |-> ActOf(Ks(1)), mx |-> RE(0..10), my |-> RE(0..10)]
    [] kind = "frh" -> [max |-> RE(0..5)]
    [] kind = "dyn" -> One({[tanh |-> ActOf(ks), sech |-> ActOf(ks), diss |-> RE(0..5)] : ks \in {Ks(1)}})
    [] kind = "cost_yaw" -> [yaw |-> [a |-> <<RE(-2..2)>>, b |-> <<RE(-1..1)>>], pts |-> Shape(w.n)]
    [] kind = "cost_ratio" -> [ratio |-> RE(0..4)]
    [] kind = "cost_phantom" -> [sech |-> ActOf(Ks(1))]
    [] kind = "cost_swing" -> [h |-> RE(0..3), wts |-> Vec(3, 0..3)]
    [] kind = "cost_point" -> [ref |-> [a |-> Vec(3, -2..2), b |-> Vec(3, -1..1)], wgt |-> [a |-> Vec(3, 0..3), b |-> Vec(3, 0..1)], bad |-> RE({-1, -1, 2})]
    [] kind = "cost_comvel" -> [ref |-> [a |-> Vec(3, -2..2), b |-> Vec(3, -1..1)]]
    [] kind = "cost_postural" -> [ref |-> [a |-> Vec(w.nj, -2..2), b |-> Vec(w.nj, -1..1)], jw |-> Vec(w.nj, 0..3), kp |-> Vec(w.nj, 0..3)]
    [] OTHER -> [none |-> 0]
\* the kinds that make sense in a world
KindsIn(w) == Kinds \ (IF w.n < 3 THEN {"cost_yaw"} ELSE {})
ActsOf(t) == CASE t.kind \in {"fc", "cost_phantom"} -> {t.prm.sech} [] t.kind \in {"nv", "pv"} -> {t.prm.tanh}
               [] t.kind = "dyn" -> {t.prm.sech, t.prm.tanh} [] OTHER -> {}
Live(t) == {a \in ActsOf(t) : ~a.off}
Heights(w) == {FPos(w, f, i) + 3 : f \in {"Left", "Right"}, i \in 0..(w.n - 1)}
Quats == {q \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : (q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]) \in {1, 2, 4}}
UnitQuats == {q \in Quats : q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4] = 1}
\* mode of a height: 0, saturated (an integer), or where the activations are rational
Mode(t) == IF Live(t) = {} THEN RE({"any"})
           ELSE IF \E a \in Live(t) : a.k < 40 THEN RE({"zero", "ln"}) ELSE RE(IF t.kind = "dyn" THEN {"zero", "any"} ELSE {"zero", "any", "ln"})
AllFns == {"val", "jx", "ju", "hxx", "huu", "hxu"}
DerFns == AllFns \ {"val"}
ValFns == {"val"}
Scale(t, D, useLn) == IF t.kind = "dyn" THEN (IF useLn THEN 62500 ELSE 6400) ELSE IF Live(t) # {} THEN 625 * D ELSE D
RowsN(w, t) == CASE t.kind \in {"cpc", "nv"} -> 2 [] t.kind = "pv" -> 4 [] t.kind = "dyn" -> NX(w) [] OTHER -> 1
DOf(w, t) == CASE t.kind = "fric" -> t.prm.md * t.prm.md [] t.kind = "frh" -> w.n [] t.kind = "cost_feetdist" -> 2 * w.n * w.n
               [] t.kind = "cost_yaw" -> 50 [] t.kind = "cost_mean" -> 2 * w.n * w.n [] t.kind = "cost_ratio" -> 32
               [] t.kind = "cost_point" -> 8 * w.n * w.n [] t.kind \in CostKinds -> 2 [] OTHER -> 1
EvalCmds(w, id, t) ==
  {[op |-> "eval", id |-> id, fn |-> fn, t |-> RE(0..3), ln |-> SetToSq(ln), s |-> Scale(t, DOf(w, t), ln # {}),
    x |-> [i \in 1..NX(w) |-> LET o == SO(w, "BaseQuaternion") IN
             IF t.kind = "dyn" /\ i \in (o + 1)..(o + 4) THEN q[i - o]
             ELSE IF i \in Heights(w) THEN (IF i \in lnset THEN 0 ELSE hs[i]) ELSE RE(-2..3)],
    u |-> Vec(NU(w), -2..3),
    lam |-> IF t.kind \in CostKinds THEN <<>> ELSE Vec(RowsN(w, t), IF t.kind = "dyn" THEN {0, 0, 0, 1, -1, 2} ELSE {0, 1, -1, 2, 3})]
   : <<fn, lnset, ln, q, hs>> \in
     {<<f, m.l, {<<i, RE({-1, 1}), (RE(Live(t))).k>> : i \in m.l}, RE(IF m.l = {} THEN Quats ELSE UnitQuats), m.h>> :
        f \in {RE(Fns)},
        m \in {[l |-> {i \in DOMAIN mm : mm[i] = "ln"}, h |-> [i \in DOMAIN mm |-> IF mm[i] = "any" THEN RE(-2..2) ELSE 0]]
               : mm \in {[i \in Heights(w) |-> Mode(t)]}}}}


\* changes of the parameters of a living term
SetCmds(id, t, w) ==
  CASE t.kind = "fric" -> {[op |-> "set", id |-> id, what |-> "mu", mn |-> RE({-1, 0, 1, 2, 3}), md |-> RE({1, 2, 4, 10})]}
    [] t.kind = "qn" -> {[op |-> "set", id |-> id, what |-> "tol", tol |-> RE(0..5)]}
    [] t.kind \in {"cost_yaw", "cost_ratio", "cost_point", "cost_comvel"} ->
         {[op |-> "set", id |-> id, what |-> "prm", prm |-> IF t.kind = "cost_yaw" THEN [p EXCEPT !.pts = t.prm.pts] ELSE p] : p \in {Prm(t.kind, w)}}
    [] OTHER -> {}
AfterSet(t, c) == CASE c.what = "mu" -> IF c.mn <= 0 THEN t ELSE [t EXCEPT !.prm = [mn |-> c.mn, md |-> c.md]]
                    [] c.what = "tol" -> [t EXCEPT !.prm.tol = c.tol]
                    [] OTHER -> [t EXCEPT !.prm = c.prm]

VARIABLES w, ts, hist
vars == <<w, ts, hist>>
NT == IF Kinds = DynKinds THEN 2 ELSE 6
GInit == w = [n |-> 0] /\ ts = <<>> /\ hist = <<>>
GenNext ==
  /\ Len(hist) < GenLen
  /\ IF hist = <<>> THEN \E x \in Worlds(1) : w' = x /\ ts' = ts /\ hist' = <<x>>
     ELSE IF Len(ts) < NT
     THEN \E k \in {RE(KindsIn(w))} : \E t \in {[kind |-> k, foot |-> RE({"Left", "Right"}), pt |-> RE(0..(w.n - 1)), prm |-> Prm(k, w)]} :
            /\ ts' = Append(ts, t) /\ w' = w
            /\ hist' = Append(hist, [op |-> "term", id |-> Len(ts) + 1, kind |-> t.kind, foot |-> t.foot, pt |-> t.pt, prm |-> t.prm])
     ELSE /\ w' = w
          /\ \E id \in {RE(1..NT)} : \E r \in {RE(1..16)} :
             LET t == ts[id] IN
             IF r \in {1, 4} /\ t.kind \in ConstraintKinds /\ "bounds" \in Ops
             THEN ts' = ts /\ hist' = Append(hist, [op |-> "bounds", id |-> id])
             ELSE IF r \in (2..(IF Fns = DerFns /\ "sparsity" \in Ops THEN 8 ELSE 2)) /\ "sparsity" \in Ops
             THEN \E f \in {RE(IF t.kind \in CostKinds THEN {"hxx", "huu", "hxu"} ELSE DerFns)} : ts' = ts /\ hist' = Append(hist, [op |-> "sparsity", id |-> id, fn |-> f])
             ELSE IF r \in {9, 10, 11} /\ "set" \in Ops /\ t.kind \in {"fric", "qn", "cost_yaw", "cost_ratio", "cost_point", "cost_comvel"}
             THEN \E c \in SetCmds(id, t, w) : ts' = [ts EXCEPT ![id] = AfterSet(t, c)] /\ hist' = Append(hist, c)
             ELSE \E c \in EvalCmds(w, id, t) : ts' = ts /\ hist' = Append(hist, c)
GenSpec == GInit /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
