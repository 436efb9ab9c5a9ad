--------------------------------- MODULE PureMC ---------------------------------
(***************************************************************************)
(* Histories for property C12: all kinds of terms on one robot, a small    *)
(* pool of states, controls, multipliers and times, and questions which    *)
(* mostly change one argument at a time.                                   *)
(***************************************************************************)
EXTENDS RTermsMC
CONSTANTS PKinds
VARIABLE last
Base(n) == [i \in 1..n |-> 512 * RE(-3..4) + 64 * RE(0..7)]
FarQ(dummy) == 512 * RE({-3, -1, 1, 2, 3})
\* the heights of the contact points are often close to the ground, where the activations change
GroundCells(v) == {SO(v, f \o "PositionPoint" \o ToString(k)) + 3 : f \in {"Left", "Right"}, k \in 0..(v.n - 1)}
StateP(v) == LET o == SO(v, "BaseQuaternion")  hs == GroundCells(v) IN
  [i \in 1..NX(v) |-> IF i \in (o + 1)..(o + 4) THEN FarQ(i) ELSE IF i \in hs /\ RE(1..3) # 1 THEN RE(-320..320) ELSE 512 * RE(-3..4) + 64 * RE(0..7)]
CtrlP(v) == Base(NU(v))
CellsOfBlock(labs, k) == LET RECURSIVE O(_)  O(i) == IF i = 1 THEN 0 ELSE O(i - 1) + labs[i - 1][2] IN (O(k) + 1)..(O(k) + labs[k][2])
\* the same vector but for one of its blocks, changed much or little; or but for one entry
OtherBlock(x, labs, want) == One({[i \in 1..Len(x) |-> IF i \in CellsOfBlock(labs, k) /\ (how # 3 \/ i = CHOOSE z \in CellsOfBlock(labs, k) : TRUE)
                                            THEN (IF how = 1 THEN FarQ(i) ELSE x[i] + d) ELSE x[i]]
                            : k \in {RE({z \in 1..Len(labs) : want = {} \/ labs[z][1] \in want})}, how \in {RE(1..3)}, d \in {RE({1, -1, 8, -8, 512})}})
PointLabs(v) == {f \o "PositionPoint" \o ToString(k) : f \in {"Left", "Right"}, k \in 0..(v.n - 1)}
RobotLabs == {"BasePosition", "BaseQuaternion", "JointsPosition"}
Pool(v) == One({[xs |-> <<x, OtherBlock(x, v.slab, RobotLabs), OtherBlock(x, v.slab, IF RE(1..2) = 1 THEN {} ELSE PointLabs(v)), StateP(v)>>, us |-> <<u, OtherBlock(u, v.clab, {}), OtherBlock(u, v.clab, {}), CtrlP(v)>>]
                : x \in {StateP(v)}, u \in {CtrlP(v)}})
Ls(v) == <<Vec(NX(v), -2..3), Vec(NX(v), {0, 0, 1, -1})>>
EveryKind == PolyKinds \cup DynKinds \cup RobotKinds
PNT == 4
Times == <<0, 4, 8, 12, 3, 6, 9>>      \* quarters; references which follow the nearest instant are given at 0, 1, 2, 3
FnsOf(t) == IF t.kind = "statt" THEN {"val", "jx", "ju"} ELSE AllFns
IsR(k) == k \in RobotKinds
PrmOf(k, v) == IF IsR(k) THEN RPrm(k, v) ELSE Prm(k, v)
First == [id |-> 1, fn |-> "val", x |-> 1, u |-> 1, l |-> 1, t |-> 0]
ConK == ConstraintKinds \cup {"com", "cpos", "mom", "lat"}
CostK == CostKinds \cup {"fori", "fvel", "statt"}
Can(v) == PKinds \ ((IF v.n < 3 THEN {"cost_yaw"} ELSE {}) \cup (IF Len(v.robot.links) < 2 THEN {"lat", "statt"} ELSE {}))
\* one argument after the other, several at once, or the same again
Steps(a) == LET t == Times[RE(1..Len(Times))] IN
  {CASE r \in {1, 2} -> [a EXCEPT !.fn = RE(FnsOf(ts[a.id]))]
     [] r \in {3, 4} -> [a EXCEPT !.x = RE(1..4)]
     [] r = 5 -> [a EXCEPT !.u = RE(1..4)]
     [] r = 6 -> [a EXCEPT !.l = RE(1..2)]
     [] r = 7 -> [a EXCEPT !.t = t]
     [] r \in {8, 9} -> One({[a EXCEPT !.id = i, !.fn = IF a.fn \in FnsOf(ts[i]) THEN a.fn ELSE "val"] : i \in {RE(1..PNT)}})
     [] r = 10 -> a
     [] OTHER -> One({[id |-> i, fn |-> RE(FnsOf(ts[i])), x |-> RE(1..4), u |-> RE(1..4), l |-> RE(1..2), t |-> t] : i \in {RE(1..PNT)}})
   : r \in {RE(1..12)}}
Settable == {"fric", "qn", "cost_yaw", "cost_ratio", "cost_point", "cost_comvel"}
PNext ==
  /\ Len(hist) < GenLen
  /\ IF hist = <<>>
     THEN \E x \in RWorlds(1) : \E p \in {Pool(x)} : w' = x /\ ts' = ts /\ hist' = <<x @@ p @@ [ls |-> Ls(x)]>> /\ last' = First
     ELSE IF Len(ts) < PNT
     THEN \E k \in {RE(IF Len(ts) < 2 /\ PKinds = EveryKind THEN Can(w) \cap (RobotKinds \cup {"dyn"}) ELSE Can(w))} :
          \E t \in {[kind |-> k, foot |-> RE({"Left", "Right"}), pt |-> RE(0..(w.n - 1)), prm |-> PrmOf(k, w)]} :
            /\ ts' = Append(ts, t) /\ UNCHANGED <<w, last>>
            /\ hist' = Append(hist, [op |-> "term", id |-> Len(ts) + 1, kind |-> t.kind, foot |-> t.foot, pt |-> t.pt, prm |-> t.prm])
     ELSE /\ w' = w
          /\ \E r \in {RE(1..24)} : \E id \in {RE(1..PNT)} :
             LET t == ts[id] IN
             IF r = 1 /\ t.kind \in ConK THEN UNCHANGED <<ts, last>> /\ hist' = Append(hist, [op |-> "bounds", id |-> id])
             ELSE IF r = 2 /\ t.kind # "statt" THEN \E f \in {RE(AllFns \ (IF t.kind \in CostK THEN {"val", "jx", "ju"} ELSE {"val"}))} :
                     UNCHANGED <<ts, last>> /\ hist' = Append(hist, [op |-> "sparsity", id |-> id, fn |-> f])
             ELSE IF r \in {3, 4, 5} /\ t.kind \in Settable THEN \E c \in SetCmds(id, t, w) : ts' = [ts EXCEPT ![id] = AfterSet(t, c)] /\ last' = last /\ hist' = Append(hist, c)
             ELSE IF r \in {6, 7} /\ PKinds = EveryKind THEN UNCHANGED <<ts, last>> /\ hist' = Append(hist, [op |-> "other", how |-> RE(1..2), x |-> RE(1..4), u |-> RE(1..4), t |-> RE({0, 4, 8, 12})])
             ELSE \E a \in Steps(last) : ts' = ts /\ last' = a /\ hist' = Append(hist, [op |-> "ask"] @@ a)
PInit == GInit /\ last = First
PSpec == PInit /\ [][PNext]_<<w, ts, hist, last>>
=============================================================================
