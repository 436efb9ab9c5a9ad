------------------------------ MODULE TermsThm ------------------------------
(* Facts about the specification itself, checked exhaustively over small points: its symbolic derivatives are the
   derivatives of its values, costs are never negative and vanish exactly on their reference, friction is the cone,
   and the dynamics couples points only through the momentum. *)
EXTENDS Terms
CONSTANTS Kinds, Vals
NoAct(k, v) == [k |-> k, off |-> FALSE, c |-> v]
ConstraintKinds == {"fc", "fric", "cc", "cpc", "dc", "nv", "pv", "qn", "frh"}
CostKinds == {"cost_compl", "cost_feetdist", "cost_yaw", "cost_mean", "cost_ratio", "cost_phantom", "cost_swing", "cost_point", "cost_comvel", "cost_postural"}
DynKinds == {"dyn"}
PolyKinds == ConstraintKinds \cup CostKinds
Feet == <<"Left", "Right">>
SLabs(n, nj) == FlattenSeq([k \in 1..2 |-> FlattenSeq([i \in 1..n |-> <<<<Pt(Feet[k], "Force", i - 1), 3>>, <<Pt(Feet[k], "Position", i - 1), 3>>>>])])
                \o <<<<"Momentum", 6>>, <<"CoMPosition", 3>>, <<"BasePosition", 3>>, <<"BaseQuaternion", 4>>, <<"JointsPosition", nj>>>>
CLabs(n, nj) == FlattenSeq([k \in 1..2 |-> FlattenSeq([i \in 1..n |-> <<<<Pt(Feet[k], "ForceControl", i - 1), 3>>, <<Pt(Feet[k], "VelocityControl", i - 1), 3>>>>])])
                \o <<<<"BaseLinearVelocity", 3>>, <<"BaseQuaternionDerivative", 4>>, <<"JointsVelocity", nj>>>>
PrmOf(k) == CASE k = "fc" -> [sech |-> NoAct(50, 0), maxd |-> 3, diss |-> 2] [] k = "fric" -> [mn |-> 1, md |-> 2]
              [] k \in {"cc", "cpc", "qn"} -> [tol |-> 1] [] k = "dc" -> [gain |-> 3, ub |-> 1] [] k = "nv" -> [tanh |-> NoAct(50, 0), maxd |-> 3]
              [] k = "pv" -> [tanh |-> NoAct(50, 0), mx |-> 3, my |-> 2] [] k = "frh" -> [max |-> 1]
              [] k = "dyn" -> [tanh |-> NoAct(50, 0), sech |-> NoAct(50, 0), diss |-> 2]
              [] k = "cost_yaw" -> [yaw |-> [a |-> <<1>>, b |-> <<1>>], pts |-> <<<<4, 2, 0>>, <<4, -3, 0>>, <<-2, -3, 0>>>>]
              [] k = "cost_ratio" -> [ratio |-> 3] [] k = "cost_phantom" -> [sech |-> NoAct(50, 0)]
              [] k = "cost_swing" -> [h |-> 1, wts |-> <<1, 2, 3>>]
              [] k = "cost_point" -> [ref |-> [a |-> <<1, 0, -1>>, b |-> <<0, 1, 1>>], wgt |-> [a |-> <<1, 2, 0>>, b |-> <<0, 0, 1>>], bad |-> -1]
              [] k = "cost_comvel" -> [ref |-> [a |-> <<1, 0, -1>>, b |-> <<0, 1, 1>>]]
              [] k = "cost_postural" -> [ref |-> [a |-> <<1>>, b |-> <<1>>], jw |-> <<2>>, kp |-> <<3>>]
              [] OTHER -> [none |-> 0]
W(k) == LET n == IF k = "cost_yaw" THEN 3 ELSE IF k \in {"cost_mean", "cost_ratio", "frh"} THEN 2 ELSE 1 IN
        [n |-> n, nj |-> 1, mass |-> 2, slab |-> SLabs(n, 1), clab |-> CLabs(n, 1)]
T(k) == Term(W(k), [kind |-> k, foot |-> "Right", pt |-> 0, prm |-> PrmOf(k)], 1)
VarsT(k) == UNION {VarsOf(T(k).P[r]) : r \in 1..Len(T(k).P)}
Heights(k) == {FPos(W(k), f, i) + 3 : f \in {"Left", "Right"}, i \in 0..(W(k).n - 1)}
HasAct(k) == k \in {"fc", "nv", "pv", "cost_phantom", "dyn"}

VARIABLES kind, x
Init == kind \in Kinds /\ x \in [(IF kind = "dyn" THEN {} ELSE VarsT(kind)) -> Vals]
Next == FALSE /\ UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>

At(p, y) == Eval(p, 1, 1, 1, [x |-> [i \in 1..(NX(W(kind)) + NU(W(kind))) |-> IF i \in DOMAIN y THEN y[i] ELSE 0], ln |-> <<>>]).n
Sh(y, j, d) == [y EXCEPT ![j] = @ + d]
Smooth(j) == ~(HasAct(kind) /\ j \in Heights(kind))
Rows == 1..Len(T(kind).P)
\* exact because every term has degree at most two in each single variable
FirstDerivatives == \A r \in Rows : LET p == T(kind).P[r] IN \A j \in VarsOf(p) : Smooth(j) => At(p, Sh(x, j, 1)) - At(p, Sh(x, j, -1)) = 2 * At(Diff(p, j), x)
SecondDerivatives == \A r \in Rows : LET p == T(kind).P[r] IN \A j, k \in VarsOf(p) : (Smooth(j) /\ Smooth(k)) =>
    IF j = k THEN At(p, Sh(x, j, 1)) - 2 * At(p, x) + At(p, Sh(x, j, -1)) = At(Diff(Diff(p, j), j), x)
    ELSE At(p, Sh(Sh(x, j, 1), k, 1)) - At(p, Sh(Sh(x, j, 1), k, -1)) - At(p, Sh(Sh(x, j, -1), k, 1)) + At(p, Sh(Sh(x, j, -1), k, -1)) = 4 * At(Diff(Diff(p, j), k), x)
CellsAreUsed == LET w == W(kind)  t == [kind |-> kind, foot |-> "Right", pt |-> 0, prm |-> PrmOf(kind)]
                    c == Cells(w, t, "hxx") IN \A e \in c : <<e[2], e[1]>> \in c
CostsArePositive == kind \in CostKinds => At(T(kind).P[1], x) >= 0
Cone == kind = "fric" => LET f == FFor(W(kind), "Right", 0) IN
          (At(T(kind).P[1], x) <= 0) <=> (4 * (x[f + 1] * x[f + 1] + x[f + 2] * x[f + 2]) <= x[f + 3] * x[f + 3])
Zero == kind = "cost_comvel" => LET o == SO(W(kind), "Momentum") IN
          (At(T(kind).P[1], x) = 0) <=> (x[o + 1] = 2 /\ x[o + 2] = 2 /\ x[o + 3] = 0)
\* the rows of a point only involve that point
Block(w, f, i) == UNION {{o + 1, o + 2, o + 3} : o \in {FPos(w, f, i), FFor(w, f, i), FVel(w, f, i), FFoc(w, f, i)}}
NoCoupling == kind = "dyn" => LET w == W(kind)  P == T(kind).P IN
   \A f \in {"Left", "Right"}, i \in 0..(w.n - 1) : \A r \in Block(w, f, i) \cap (1..NX(w)) : VarsOf(P[r]) \subseteq Block(w, f, i)
Balance == kind = "dyn" => LET w == W(kind)  P == T(kind).P  m == SO(w, "Momentum") IN \* every force enters with unit gain
   \A f \in {"Left", "Right"}, i \in 0..(w.n - 1), k \in 1..3 : Diff(P[m + k], FFor(w, f, i) + k) = C(100)
=============================================================================
