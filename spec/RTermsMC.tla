-------------------------------- MODULE RTermsMC --------------------------------
EXTENDS TermsMC, RTerms
CubeRots == {MM(RotU(<<1, 0, 0>>, i), MM(RotU(<<0, 1, 0>>, j), RotU(<<0, 0, 1>>, k))) : i \in 0..3, j \in 0..3, k \in 0..3}
P3(S) == <<RE(S), RE(S), RE(S)>>
SymI(dummy) == One({<<<<RE(3..5), a, b>>, <<a, RE(3..5), c>>, <<b, c, RE(3..5)>>>> : a \in {RE(-1..1)}, b \in {RE(-1..1)}, c \in {RE(-1..1)}})
LinkOf(i) == [parent |-> IF i = 1 THEN 0 ELSE RE(1..(i - 1)), ax |-> RE(1..3), sg |-> RE({1, -1}), o |-> P3(-1..1), off |-> P3(-1..1),
              rr |-> RE({Id3, RE(CubeRots)}), m |-> RE(1..2), c |-> P3(-1..1), I |-> SymI(i)]
RobotOf(nl, nf) == [links |-> [i \in 1..nl |-> LinkOf(i)], frames |-> [k \in 1..nf |-> [link |-> RE(1..nl), R |-> RE(CubeRots), p |-> P3(-1..1)]],
                    g |-> RE({<<0, 0, -8>>, <<0, 0, -8>>, <<1, -2, -4>>})]
RWorlds(dummy) == {[x EXCEPT !.mass = 0] @@ [robot |-> RobotOf(x.nj + 1, 2)] : x \in {[y EXCEPT !.n = y.n] : y \in Worlds(1)}}
NF(v) == Len(v.robot.links) + Len(v.robot.frames)
RPrm(kind, v) ==
  CASE kind \in {"com", "mom"} -> [tol |-> RE(0..5)]
    [] kind = "cpos" -> [frame |-> RE(1..NF(v)), pos |-> P3(-1..2), tol |-> RE(0..5)]
    [] kind = "lat" -> One({[lat |-> RE(0..2), ref |-> fr[1], other |-> fr[2], min |-> RE(1..3)] : fr \in {RE({z \in (1..NF(v)) \X (1..NF(v)) : z[1] # z[2]})}})
    [] kind = "fori" -> [frame |-> RE(1..NF(v)), rots |-> <<RE(CubeRots), RE(CubeRots), RE(CubeRots), RE(CubeRots)>>, wgt |-> [a |-> <<RE(1..3)>>, b |-> <<RE(0..1)>>]]
    [] kind = "fvel" -> [frame |-> RE(1..NF(v)), rots |-> <<RE(CubeRots), RE(CubeRots), RE(CubeRots), RE(CubeRots)>>, gain |-> RE(0..2)]
    [] OTHER -> One({[lf |-> fr[1], rf |-> fr[2], lp |-> [i \in 1..v.n |-> P3(-1..1)], rp |-> [i \in 1..v.n |-> P3(-1..1)], wt |-> [j \in 1..v.nj |-> RE(0..2)], g |-> v.robot.g]
                     : fr \in {RE({z \in (1..NF(v)) \X (1..NF(v)) : LinkOfFrame(v.robot, z[1]) # LinkOfFrame(v.robot, z[2])})}})
Norms(kind) == IF kind \in {"mom", "fvel"} THEN {1, 4} ELSE {1, 2, 4}
QuatsOf(ns) == {q \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : (q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]) \in ns}
Q14 == QuatsOf({1, 4})
Q124 == QuatsOf({1, 2, 4})
BlockVars(labs, off, names) == UNION {LET o == off + OffIn(labs, nm) IN (o + 1)..(o + (CHOOSE s \in 0..50 : \E k \in 1..Len(labs) : labs[k] = <<nm, s>>)) : nm \in names}
StV(v) == BlockVars(v.slab, 0, {"BaseQuaternion", "JointsPosition"})
OwnVars(v, t) == BlockVars(v.slab, 0, CASE t.kind = "com" -> {"BasePosition", "CoMPosition"} [] t.kind = "cpos" -> {"BasePosition", Pt(t.foot, "Position", t.pt)}
                                        [] t.kind = "mom" -> {"Momentum", "CoMPosition"} [] t.kind = "statt" -> {Pt(t.foot, "Force", t.pt)} [] OTHER -> {"BasePosition"})
CV(v) == BlockVars(v.clab, 0, {"BaseLinearVelocity", "BaseQuaternionDerivative", "JointsVelocity"})
PickS(v, t) == RE({RE(StV(v)), RE(StV(v)), RE(OwnVars(v, t)), RE(1..NX(v))})
PickC(v) == RE({RE(CV(v)), RE(CV(v)), RE(1..NU(v))})
ProbeOf(v, t, fn) == CASE fn = "jx" -> <<PickS(v, t)>> [] fn = "ju" -> <<PickC(v)>> [] fn = "hxx" -> <<PickS(v, t), PickS(v, t)>>
                       [] fn = "huu" -> <<PickC(v), PickC(v)>> [] OTHER -> <<PickS(v, t), PickC(v)>>
HasFn(t, fn) == ~(t.kind = "statt" /\ fn \in {"hxx", "huu", "hxu"})
NProbe == 4
RandState(v, t) ==
  One({[i \in 1..NX(v) |-> LET o == SO(v, "BaseQuaternion")  j == SO(v, "JointsPosition") IN
          IF i \in (o + 1)..(o + 4) THEN q[i - o] ELSE IF i \in (j + 1)..(j + v.nj) THEN RE(-1..2) ELSE RE(-1..2)]
       : q \in {RE(IF t.kind \in {"mom", "fvel"} THEN Q14 ELSE Q124)}})
Probe(v, id, t, nz) ==
  {[op |-> "probe", id |-> id, fn |-> fn, t |-> RE(0..3), s |-> ScaleOf(v, t), x |-> RandState(v, t), u |-> Vec(NU(v), -1..2),
    lam |-> IF t.kind \in {"fori", "fvel", "statt"} THEN <<>> ELSE Vec(RRows(t), {0, 1, -1, 2}),
    probes |-> IF fn = "val" THEN <<>> ELSE [k \in 1..NProbe |-> ProbeOf(v, t, fn)]] @@ (IF nz THEN [nz |-> 1] ELSE <<>>)
   : fn \in {RE({f \in Fns : HasFn(t, f)})}}
RNT == 3
RGenNext ==
  /\ Len(hist) < GenLen
  /\ IF hist = <<>> THEN \E x \in RWorlds(1) : w' = x /\ ts' = ts /\ hist' = <<x>>
     ELSE IF Len(ts) < RNT
     THEN \E k \in {RE(IF Len(w.robot.links) < 2 THEN Kinds \ {"lat", "statt"} ELSE Kinds)} :
          \E t \in {[kind |-> k, foot |-> RE({"Left", "Right"}), pt |-> RE(0..(w.n - 1)), prm |-> RPrm(k, w)]} :
            /\ ts' = Append(ts, t) /\ w' = w
            /\ hist' = Append(hist, [op |-> "term", id |-> Len(ts) + 1, kind |-> t.kind, foot |-> t.foot, pt |-> t.pt, prm |-> t.prm])
     ELSE /\ w' = w /\ ts' = ts
          /\ \E id \in {RE(1..RNT)} : \E r \in {RE(1..16)} :
             LET t == ts[id] IN
             IF r = 1 /\ t.kind \in {"com", "cpos", "mom", "lat"} /\ "bounds" \in Ops THEN hist' = Append(hist, [op |-> "bounds", id |-> id])
             ELSE IF r \in 2..8 /\ "sparsity" \in Ops
             THEN \E f \in {RE({f \in Fns \ {"val"} : HasFn(t, f)})} : hist' = Append(hist, [op |-> "sparsity", id |-> id, fn |-> f])
             ELSE \E c \in Probe(w, id, t, "sparsity" \in Ops) : hist' = Append(hist, c)
RGenSpec == GInit /\ [][RGenNext]_vars
=============================================================================
