--------------------------------- MODULE KinCache ---------------------------------
(***************************************************************************)
(* How the object of SharedKin keeps its promise: the dynamics engine is   *)
(* fed with a state only when the state asked about differs from the one   *)
(* it holds, or after a reconfiguration.  A state is <<number of joints,   *)
(* value>>, zero on loading; the engine answers with what it was last fed, *)
(* with leftovers of the previous base until its model is loaded again.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vals, Tols, LoadInvalidates, BaseReloads, RefusalInvalidates
Models == {1, 2, 3}
NJ(m) == IF m = 3 THEN 2 ELSE 1
Bases == {1, 2}
States == {<<n, v>> : n \in {1, 2}, v \in Vals}
VARIABLES cfg, eng, held, bt, necessary, ans
vars == <<cfg, eng, held, bt, necessary, ans>>
\* cfg [m, base, tol]; eng [m, base, st, left]; held: cached state; bt: base transform kept aside; ans: last query and its answer
Fresh(m) == [m |-> m, base |-> 1, st |-> <<NJ(m), 0>>, left |-> {}]
Init == \E m \in Models, t \in Tols :
  /\ cfg = [m |-> m, base |-> 1, tol |-> t] /\ eng = Fresh(m) /\ held = <<NJ(m), 0>> /\ bt = 0 /\ necessary = TRUE /\ ans = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(s, t) == s[1] = t[1] /\ Abs(s[2] - t[2]) < cfg.tol
Same(s) == ~necessary /\ Near(s, held)
Load(m) == /\ cfg' = [cfg EXCEPT !.m = m, !.base = 1] /\ eng' = Fresh(m) /\ ans' = <<>> /\ UNCHANGED bt
           /\ held' = <<NJ(m), IF NJ(m) = held[1] THEN held[2] ELSE 0>>   \* the joints are zeroed, the base is not: value kept when sizes agree
           /\ necessary' = (necessary \/ LoadInvalidates)
Rebase(b) == /\ cfg' = [cfg EXCEPT !.base = b] /\ UNCHANGED <<held, bt>> /\ ans' = <<>>
             /\ eng' = IF BaseReloads THEN [Fresh(cfg.m) EXCEPT !.base = b] ELSE [eng EXCEPT !.base = b, !.left = IF b = eng.base THEN @ ELSE @ \cup {eng.base}]
             /\ necessary' = TRUE
Tol(t) == cfg' = [cfg EXCEPT !.tol = t] /\ UNCHANGED <<eng, held, bt, necessary>> /\ ans' = <<>>
Feed(s) ==   \* returns through the primed variables; refused when the number of joints is wrong
  IF Same(s) THEN UNCHANGED <<eng, held, bt, necessary>>
  ELSE /\ bt' = s[2]
       /\ IF s[1] = NJ(cfg.m) THEN eng' = [eng EXCEPT !.st = s] /\ held' = s /\ necessary' = FALSE
          ELSE UNCHANGED <<eng, held>> /\ necessary' = (necessary \/ RefusalInvalidates)
Refused(s) == s[1] # NJ(cfg.m)
Query(s) == /\ Feed(s) /\ UNCHANGED cfg
            /\ ans' = IF Refused(s) THEN <<>> ELSE [asked |-> s, got |-> eng', bt |-> bt']
Next == (\E m \in Models : Load(m)) \/ (\E b \in Bases : Rebase(b)) \/ (\E t \in Tols : Tol(t)) \/ (\E s \in States : Query(s))
Spec == Init /\ [][Next]_vars
Right == ans # <<>> => /\ ans.got.m = cfg.m /\ ans.got.base = cfg.base /\ ans.got.left \subseteq {cfg.base}
                       /\ ans.asked = ans.got.st \/ Near(ans.asked, ans.got.st)
                       /\ ans.bt = ans.got.st[2]
Coherent == ~necessary => held = eng.st /\ bt = held[2] /\ eng.m = cfg.m /\ eng.base = cfg.base
=============================================================================
