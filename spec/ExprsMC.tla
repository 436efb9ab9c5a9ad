---------------------------------- MODULE ExprsMC ----------------------------------
(* Histories for Exprs: setup, servers, requests, states, evaluations.  The specification's own system is the generator's memory. *)
EXTENDS SharedKinMC
XE == INSTANCE Exprs
VARIABLE sys
varsE == <<w, ts, hist, models, objs, pool, sys>>
FState(d) == CutTo([FreshState(d) EXCEPT !.q = RE(Q14)], NL(sys.rob) - 1)
RStateN(n) == One({CutTo([y EXCEPT !.q = IF XE!Sq4(y.q) = 2 THEN <<1, 0, 0, 0>> ELSE y.q], n) : y \in {FreshState(n)}})
Bump(y) == One({CASE f = 1 -> [y EXCEPT !.bp[i] = @ + 1] [] f = 2 -> [y EXCEPT !.q = RE(Q14)] [] f = 3 -> [y EXCEPT !.s = [k \in 1..Len(@) |-> IF k = 1 + (i % Len(@)) THEN @[k] + 1 ELSE @[k]] @@ <<>>]
                  [] f = 4 -> [y EXCEPT !.bv[i] = @ + 1] [] f = 5 -> [y EXCEPT !.bqd[i] = @ + 1]
                  [] OTHER -> [y EXCEPT !.sd = [k \in 1..Len(@) |-> IF k = 1 + (i % Len(@)) THEN @[k] + 1 ELSE @[k]] @@ <<>>] : f \in {RE(1..6)}, i \in {RE(1..3)}})
Names == {<<"a", "aa", "aaa", "aaaa", "aaaaa", "aaaaaa", "aaaaaaa">>, <<"aa", "a", "ab", "b", "aab", "ba", "aba">>, <<"l", "l_1", "l_", "_1", "1", "l_1_", "_">>, <<"b", "ab", "bb", "a", "abb", "bab", "aa">>}
RobE(d) == One({IF RE(1..2) = 1 THEN r @@ [names |-> SubSeq(RE(Names), 1, Len(r.links) + Len(r.frames))] ELSE r : r \in {RobotOf(RE(2..5), RE(0..2))}})
Lists == {<<0>>, <<0, 16>>, <<0, 4, 8>>, <<-8, 0, 16, 17>>}
V6(d) == P3(-2..2) \o P3(-2..2)
Setup(d) == One({[op |-> "setup", rob |-> r, base |-> RE(1..Len(r.links)), list |-> RE(Lists), tws |-> <<V6(1), V6(2), V6(3)>>, dqs |-> <<RE(Q124), RE(Q124)>>,
                  twn |-> RE({<<"V", "V", "V">>, <<"V", "W", "aV">>, <<"b", "ab", "aa">>, <<"a", "aa", "baseTwist">>, <<"V1", "1", "V">>}), dqn |-> RE({<<"D", "D">>, <<"D", "E">>})] : r \in {RobE(d)}})
NFrE == NL(sys.rob) + Len(sys.rob.frames)
NJE == NL(sys.rob) - 1
PlainKinds == {"rot", "nq", "q", "bp", "bv", "qd", "s", "sd", "bt", "wpos", "wrot", "com", "crbi", "mom"}
FrameKinds == {"wp", "wr", "av", "qe"}
PairKinds == {"adj", "adw", "rp", "rr", "rq", "rj", "rv", "rtp", "rtr"}
Vias == {"adjd", "adwd", "absd", "comh", "momdd"}
JointKinds == {"msv", "msx", "msw"}
LinkKinds == {"li", "lib"}
GenericKinds == PlainKinds \cup FrameKinds \cup PairKinds \cup LinkKinds
FirstVars(h) ==
  CASE h.kind \in {"rot", "wrot", "nq", "q"} -> {"q"} [] h.kind \in {"bp", "wpos"} -> {"bp"} [] h.kind = "bv" -> {"bv"} [] h.kind = "qd" -> {"qd"} [] h.kind = "sd" -> {"sd"}
    [] h.kind = "bt" -> {"q", "qd", "bv"} [] h.kind = "wp" -> {"bp", "q", "s"} [] h.kind \in {"wr", "qe"} -> {"q", "s"}
    [] h.kind = "rv" -> {"s", "sd"}
    [] h.kind = "av" -> IF h.tw = 0 THEN {"s", "sd", "q", "qd", "bv"} ELSE {"s", "sd", <<"tw1", "tw2", "tw3">>[h.tw]}
    [] h.kind = "mom" -> IF h.tw = 0 THEN {"s", "sd", "q", "qd", "bv"} ELSE {"sd", <<"tw1", "tw2", "tw3">>[h.tw]}
    [] h.kind \in {"s", "li"} \cup JointKinds -> {}
    [] OTHER -> {"s"}
NextVars(h) == IF Len(h.steps) >= (IF h.kind \in {"rq", "qe"} THEN 1 ELSE 2) THEN {} ELSE IF h.kind = "mom" /\ h.tw > 0 /\ Len(h.steps) = 1 THEN FirstVars(h) \cup {"s"} ELSE FirstVars(h)
NCols(h) == IF h.steps = <<>> THEN XE!Cols(sys.rob, h.kind) ELSE XE!Dim(sys.rob, h.steps[Len(h.steps)][1])
Blank == [es |-> 1, kind |-> "rot", via |-> "plain", fr |-> 1, ref |-> 1, j |-> 1, tw |-> 0, k |-> 1, steps |-> <<>>]
ConstH(kind, e) == One({[Blank EXCEPT !.es = e, !.kind = kind, !.fr = IF RE(1..2) = 1 THEN j + 1 ELSE sys.rob.links[j + 1].parent, !.ref = 0, !.j = j] : j \in {RE(1..NJE)}})
Request(d) ==
  One({CASE k \in JointKinds -> One({[h EXCEPT !.ref = IF h.fr = h.j + 1 THEN sys.rob.links[h.j + 1].parent ELSE h.j + 1] : h \in {ConstH(k, e)}})
         [] k \in {"adjd", "adwd"} -> [Blank EXCEPT !.es = e, !.kind = IF k = "adjd" THEN "adj" ELSE "adw", !.via = k, !.fr = RE(1..NFrE), !.ref = RE(1..NFrE), !.steps = <<<<"s", RE(1..6)>>>>]
         [] k = "absd" -> [Blank EXCEPT !.es = e, !.kind = "av", !.via = k, !.fr = RE(1..NFrE), !.tw = RE(1..3), !.steps = <<<<"s", 1>>>>]
         [] k = "comh" -> [Blank EXCEPT !.es = e, !.kind = "com", !.via = k, !.steps = <<<<"s", 1>>, <<"s", RE(1..NJE)>>>>]
         [] k = "momdd" -> [Blank EXCEPT !.es = e, !.kind = "mom", !.via = k, !.tw = RE(0..3), !.steps = <<<<"s", 1>>, <<"s", RE(1..NJE)>>>>]
         [] k \in LinkKinds -> [Blank EXCEPT !.es = e, !.kind = k, !.fr = RE(1..NL(sys.rob))]
         [] k \in PairKinds -> [Blank EXCEPT !.es = e, !.kind = k, !.fr = RE(1..NFrE), !.ref = RE(1..NFrE)]
         [] OTHER -> [Blank EXCEPT !.es = e, !.kind = k, !.fr = RE(1..NFrE), !.tw = IF k \in {"av", "mom"} THEN RE(0..3) ELSE 0, !.k = RE(1..2)]
       : k \in {RE({RE(GenericKinds), RE(PairKinds), RE(Vias \cup FrameKinds), RE(JointKinds \cup Vias \cup {"av", "qe", "com", "mom"})})}, e \in {RE(1..Len(sys.es))}})
\* the kind under which Exprs knows it
Canon(h) == IF h.kind = "wrot" THEN [h EXCEPT !.kind = "rot", !.via = "wrot"] ELSE h
PickE == RE({RE({pool[i] : i \in 1..Len(pool)}), RE({pool[i] : i \in 1..Len(pool)}), Bump(RE({pool[i] : i \in 1..Len(pool)}))})
TimeE == RE({sys.list[RE(1..Len(sys.list))], sys.list[RE(1..Len(sys.list))], RE(-10..20)})
Step(c) == sys' = XE!ApplyE(sys, [cmd |-> c, ret |-> 1]) /\ Do(c)
KnownH == {i \in 1..Len(sys.hs) : sys.es[sys.hs[i].es].known}
DerH == {i \in 1..Len(sys.hs) : NextVars(sys.hs[i]) # {}}
\* handles worth looking at: the last ones and any
PickH(S) == RE({RE(S), RE(S), CHOOSE z \in S : \A y \in S : y <= z})
KnownTimes == {t \in -10..20 : Cardinality(sys.slots[XE!SlotAt(sys, t)]) = 1}
GInitE == GInit6 /\ sys = XE!NewSys
GNextE ==
  /\ Len(hist) < GenLen
  /\ UNCHANGED <<models, objs>>
  /\ IF hist = <<>> THEN \E c \in {Setup(1)} : pool' = <<RStateN(NL(c.rob) - 1), RStateN(NL(c.rob) - 1), RStateN(NL(c.rob) - 1)>> /\ Step(c)
     ELSE UNCHANGED pool /\
       IF sys.es = <<>> THEN Step([op |-> "new"])
       ELSE IF sys.hs = <<>> THEN \E h \in {Canon(Request(1))} : Step([op |-> "ask", h |-> h])
       ELSE \E e \in {RE(1..Len(sys.es))} : \E r \in {RE(1..60)} :
         CASE r = 1 /\ Len(sys.es) < 2 -> Step([op |-> "new"])
           [] r \in 2..8 -> \E h \in {Canon(Request(1))} : Step([op |-> "ask", h |-> h])
           [] r \in 9..13 /\ DerH # {} -> \E i \in {PickH(DerH)} : \E v \in {RE(IF RE(1..6) = 1 /\ sys.hs[i].kind \notin {"rq", "qe"} THEN {"q", "bp", "sd", "bv", "qd"} ELSE NextVars(sys.hs[i]))} : \E cl \in {RE(1..NCols(sys.hs[i]))} : Step([op |-> "der", h |-> i, v |-> v, col |-> cl])
           [] r \in 14..16 -> \E k \in {RE(1..3)} : \E v \in {V6(1)} : Step([op |-> "tw", k |-> k, v |-> v])
           [] r = 17 -> \E k \in {RE(1..2)} : \E v \in {RE(Q124)} : Step([op |-> "dq", k |-> k, v |-> v])
           [] r \in 18..24 -> \E t \in {TimeE} : \E s \in {PickE} : Step([op |-> "upd", es |-> e, t |-> t, st |-> s])
           [] r \in 25..27 -> \E t \in {TimeE} : \E s \in {PickE} : Step([op |-> "kd", t |-> t, st |-> s])
           [] r \in 28..29 /\ KnownTimes # {} -> \E t \in {RE(KnownTimes)} : Step([op |-> "updt", es |-> e, t |-> t])
           [] r = 30 -> Step([op |-> "cur", es |-> e])
           [] OTHER -> IF KnownH = {} THEN \E s \in {PickE} : Step([op |-> "upd", es |-> e, t |-> sys.list[1], st |-> s])
                       ELSE \E i \in {PickH(KnownH)} : Step([op |-> "ev", h |-> i, s |-> XE!ScaleE(sys.rob, sys.hs[i].kind)])
GSpecE == GInitE /\ [][GNextE]_varsE
=============================================================================
