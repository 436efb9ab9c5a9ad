-------------------------------- MODULE SharedKinMC --------------------------------
EXTENDS RTermsMC
CONSTANTS Kinds6, ReloadEvery
SK == INSTANCE SharedKin
VARIABLES models, objs, pool
vars6 == <<w, ts, hist, models, objs, pool>>
\* states with four joints, cut to the joints of the model asked
FreshState(d) == One({[bp |-> P3(-1..2), q |-> q, s |-> <<RE(-1..2), RE(-1..2), RE(-1..2), RE(-1..2)>>, bv |-> P3(-1..2),
                       bqd |-> <<RE(-1..1), RE(-1..1), RE(-1..1), RE(-1..2)>>, sd |-> <<RE(-1..2), RE(-1..2), RE(-1..2), RE(-1..2)>>] : q \in {RE(IF RE(1..5) = 1 THEN Q124 ELSE Q14)}})
ZeroState == [bp |-> <<0,0,0>>, q |-> <<1,0,0,0>>, s |-> <<0,0,0,0>>, bv |-> <<0,0,0>>, bqd |-> <<0,0,0,0>>, sd |-> <<0,0,0,0>>]
OneOff(x) == One({CASE f = 1 -> [x EXCEPT !.bp[i] = @ + 1] [] f = 2 -> [x EXCEPT !.q = RE(Q14)] [] f = 3 -> [x EXCEPT !.s[i] = @ + 1]
                    [] f = 4 -> [x EXCEPT !.bv[i] = @ + 1] [] f = 5 -> [x EXCEPT !.bqd[i] = @ + 1] [] f = 6 -> [x EXCEPT !.sd[i] = @ + 1]
                    [] OTHER -> [x EXCEPT !.s = <<0, 0, 0, 0>>, !.sd = <<0, 0, 0, 0>>] : f \in {RE(1..7)}, i \in {RE(1..3)}})
CutTo(x, n) == [x EXCEPT !.s = SubSeq(@, 1, n), !.sd = SubSeq(@, 1, n)]
Model(d) == One({RobotOf(RE(2..5), RE(0..2)) : z \in {0}})
GInit6 == /\ w = [n |-> 0] /\ ts = <<>> /\ hist = <<>> /\ models = <<>> /\ objs = <<>> /\ pool = <<>>
Do(c) == hist' = Append(hist, c) /\ UNCHANGED <<w, ts>>
NJ(o) == NL(models[o.m]) - 1
NFr(o) == NL(models[o.m]) + Len(models[o.m].frames)
Moves == {"vel", "veld", "mom", "momd"}
PickState(o) == CutTo(RE({RE({pool[i] : i \in 1..Len(pool)}), RE({pool[i] : i \in 1..Len(pool)}), OneOff(RE({pool[i] : i \in 1..Len(pool)}))}), NJ(o))
ExtOf(o) == [l \in 1..NL(models[o.m]) |-> IF RE(1..2) = 1 THEN <<0, 0, 0, 0, 0, 0>> ELSE P3(-2..2) \o P3(-2..2)]
Query(i, kind, st) ==
  LET o == objs[i] IN
  One({c @@ [s |-> SK!Scale(models[o.m], c)] :
       c \in {[op |-> "q", obj |-> i, kind |-> kind, st |-> st, rep |-> RE({"body", "mixed", "inertial"}),
               fr |-> IF kind = "statl" THEN RE(1..NL(models[o.m])) ELSE RE(1..NFr(o)), ref |-> RE(1..NFr(o)), by |-> RE({"name", "idx"}), col |-> IF kind \in {"relj", "veld", "momd", "statd"} THEN RE(1..NJ(o)) ELSE RE(1..(6 + NJ(o))),
               ext |-> IF kind \in {"stat", "statl", "statd"} THEN ExtOf(o) ELSE <<>>]}})
Loaded == {i \in 1..Len(objs) : objs[i].m # 0}
GNext6 ==
  /\ Len(hist) < GenLen
  /\ IF Len(models) < 3 THEN \E m \in {Model(hist)} : models' = Append(models, m) /\ UNCHANGED <<objs, pool>> /\ Do([op |-> "model", rob |-> m])
     ELSE IF objs = <<>> THEN objs' = <<[m |-> 0, tol |-> 1]>> /\ pool' = <<FreshState(1), IF RE(1..2) = 1 THEN ZeroState ELSE FreshState(2)>> /\ UNCHANGED models /\ Do([op |-> "new"])
     ELSE IF Loaded = {} THEN \E m \in {RE(1..3)} : objs' = [objs EXCEPT ![1].m = m] /\ UNCHANGED <<models, pool>> /\ Do([op |-> "load", obj |-> 1, m |-> m])
     ELSE \E i \in {RE(Loaded)} : \E r \in {RE(1..60)} :
       LET o == objs[i] IN
       CASE r <= ReloadEvery -> \E m \in {RE(1..3)} : objs' = [objs EXCEPT ![i].m = m] /\ UNCHANGED <<models, pool>> /\ Do([op |-> "load", obj |-> i, m |-> m])
         [] r \in 4..5 /\ Len(objs) < 4 -> objs' = Append(objs, o) /\ UNCHANGED <<models, pool>> /\ Do([op |-> "copy", obj |-> i])
         [] r = 6 -> \E g \in {RE({<<0, 0, -981>>, <<0, 0, -200>>, <<100, -200, 300>>, <<100, -200, 301>>})} : UNCHANGED <<objs, models, pool>> /\ Do([op |-> "grav", obj |-> i, g |-> g])
         [] r = 7 -> \E t \in {RE({0, 1, 1, 2, -1})} : objs' = [objs EXCEPT ![i].tol = IF t < 0 THEN @ ELSE t] /\ UNCHANGED <<models, pool>> /\ Do([op |-> "tol", obj |-> i, tol |-> t])
         [] r \in 8..10 -> \E l \in {RE(1..(NL(models[o.m]) + 1))} : UNCHANGED <<objs, models, pool>> /\ Do([op |-> "base", obj |-> i, link |-> l])
         [] r \in 11..12 -> UNCHANGED <<objs, models, pool>> /\ \E s \in {PickState(o)} : Do([op |-> "upd", obj |-> i, st |-> s])
         [] r = 13 -> UNCHANGED <<objs, models, pool>> /\ \E s \in {PickState(o)} : \E n \in {RE(0..4)} : Do([op |-> "upd", obj |-> i, st |-> [s EXCEPT !.s = [z \in 1..n |-> 1] @@ <<>>, !.bp[1] = 5]])
         [] r = 14 -> UNCHANGED <<objs, models, pool>> /\ \E s \in {PickState(o)} : Do([op |-> "same", obj |-> i, st |-> s])
         [] r = 15 -> UNCHANGED <<objs, models, pool>> /\ Do([op |-> "cur", obj |-> i])
         [] r = 16 -> UNCHANGED <<objs, models, pool>> /\ Do([op |-> "cfg", obj |-> i])
         [] r = 17 -> pool' = (IF Len(pool) < 4 THEN Append(pool, FreshState(hist)) ELSE [pool EXCEPT ![RE(1..4)] = FreshState(hist)]) /\ UNCHANGED <<objs, models>> /\ Do([op |-> "cfg", obj |-> i])
         [] OTHER -> UNCHANGED <<objs, models, pool>> /\ \E s \in {PickState(o)} : \E k \in {RE(IF Sq4(s.q) = 2 THEN Kinds6 \ Moves ELSE Kinds6)} : \E c \in {Query(i, k, s)} : Do(c)
GSpec6 == GInit6 /\ [][GNext6]_vars6
KindsAll == {"com", "comj", "wt", "bt", "rel", "jac", "relj", "vel", "veld", "mom", "momj", "momd", "mm", "stat", "statl", "statd"}
=============================================================================
