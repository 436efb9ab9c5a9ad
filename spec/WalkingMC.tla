----------------------------- MODULE WalkingMC -----------------------------
EXTENDS Walking, TLC, Json
CONSTANTS MaxT, GenLen, Hs, Sds
VARIABLES st, prev, last, hist
vars == <<st, prev, last, hist>>
NoCmd == [op |-> "none"]
Init == st = NoWalk /\ prev = NoWalk /\ last = NoCmd /\ hist = <<>>
P1(x, f) == [p |-> <<x, 0, 0>>, f |-> <<0, 0, f>>]
St(t, x, y, f) == [t |-> t, l |-> <<P1(x, f)>>, r |-> <<P1(y, 1)>>]
Bound == st.r1.pos[1] <= 2 /\ st.r1.a >= -40
Cmds(s) == IF ~s.made THEN {[op |-> "init", start |-> V0, inc |-> <<1, 0, 0>>, sd |-> sd, H |-> h, md |-> md, ft |-> 2, pt |-> 1]
                              : sd \in Sds, h \in Hs, md \in {2, 99}}
           ELSE {[op |-> "adv", cur |-> St(t, s.r1.pos[1], s.r1.pos[1] - 1, f), fut |-> St(0, s.r1.pos[1], s.r1.pos[1] + 2 * k, 0)]
                   : t \in 0..MaxT, f \in {1, 2}, k \in {0, 1}}
Next == \E c \in Cmds(st) : st' = Step(st, c) /\ prev' = st /\ last' = c /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
Correct == /\ WellFormed(st)
           /\ last.op = "adv" => SwitchOk(prev, last.cur, last.fut, st) /\ PlanOk(prev, last.cur, last.fut, st)

\* ------------------------------------------------------------ generation
R(S) == RandomElement(S)
Pt(n) == <<R(-n..n), R(-n..n), R(-n..n)>>
Points(n, c, a) == [i \in 1..n |-> [p |-> Add(Add(c, a), Mul(IF i % 2 = 0 THEN 1 ELSE -1, <<(i + 1) \div 2, 1, 0>>)),
                                    f |-> IF R(1..3) = 1 THEN Pt(6) ELSE <<0, R({0, 3, 3}), R({4, 4, 5, 12})>>]]
\* feet centroid exactly at c when n is even (or the offset is absorbed)
Feet(t, n, c, a) == [t |-> t, l |-> Points(n, c, a), r |-> Points(n, c, Mul(-1, a))]
Time(s, k) ==
   CASE k = 1 -> 0 [] k = 2 /\ s.made -> s.sd - s.md + s.r1.a + 1 [] k = 3 /\ s.made -> s.sd - s.md + s.r1.a
     [] k = 4 /\ s.made -> s.r1.a - H03(s) + 1 [] k = 5 /\ s.made -> s.r1.a - H03(s)
     [] k = 6 -> R(10..60) [] OTHER -> R(1..9)
Pos(x) == IF x < 0 THEN 0 ELSE x
MkInit(H, sd) == [op |-> "init", start |-> Pt(5), inc |-> Pt(4), sd |-> sd, H |-> H, md |-> R({1, 2, 4, sd, H, sd + 1, H + 1, 3, 3, 2, 1}),
                  ft |-> R({5, 5, 5, 0, 4, 13, -1}), pt |-> R({1, 3, 5, 3, 5, 0}), verb |-> R({0, 1})]
Far(x) == IF R(1..3) = 1 THEN Pt(3) ELSE IF R(1..2) = 1 THEN V0 ELSE R({<<0, 3, 4>>, <<1, 0, 0>>, <<3, 0, 0>>, <<0, 2, 2>>, <<1, 1, 1>>, <<4, 0, -3>>})
Command(s, k, t, n) ==
  CASE k = 1 \/ (~s.made /\ k <= 15) -> MkInit(10 * R(1..6), R(4..40))
    [] OTHER -> [op |-> "adv", cur |-> Feet(t, n, Add(s.r1.pos, Far(k)), Pt(4)), fut |-> Feet(R(0..30), n, Add(s.r1.pos, Far(k)), Pt(4))]
GenNext == /\ UNCHANGED <<prev, last>>
           /\ \E m \in {R(1..10)} : \E k \in {R(1..30)}, t \in {Pos(Time(st, m))}, n \in {R({1, 2, 4, 4})} :
              \E c \in {Command(st, k, t, n)} : hist' = Append(hist, c) /\ st' = Step(st, c)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
