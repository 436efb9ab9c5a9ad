------------------------------ MODULE PosRefMC ------------------------------
EXTENDS PosRef, TLC, Json
CONSTANTS MaxT, GenLen
VARIABLES st, t, hist
vars == <<st, t, hist>>
Init == st = InitSt /\ t = 0 /\ hist = <<>>
Lens == {0, 1, 2, 4, 8}
Cmds(s) == {[op |-> "init", n |-> n, f |-> <<1, 0, 2>>] : n \in 0..2} \cup {[op |-> "resize", n |-> n] : n \in 0..2}
   \cup UNION { {[op |-> "pos", i |-> i, p |-> <<i, 2, 3>>]} \cup {[op |-> "range", i |-> i, a |-> a, b |-> a + d] : a \in 0..MaxT, d \in {1, 2}}
            \cup {[op |-> "instant", i |-> i, a |-> a] : a \in 0..MaxT} \cup {[op |-> "any", i |-> i]} : i \in 1..Len(s.es) }
Next == (\E c \in Cmds(st) : st' = Step(st, c) /\ UNCHANGED <<t, hist>>) \/ (\E u \in 0..(MaxT + 2) : t' = u /\ UNCHANGED <<st, hist>>)
Spec == Init /\ [][Next]_vars
Correct == Theorems(st, t)

R(S) == RandomElement(S)
Pt(x) == <<R(-9..9), R(-9..9), R(-9..9)>>
N(s) == Len(s.es)
Cmd(s, k, i, a) ==
  CASE ~s.made \/ k = 1 -> [op |-> "init", n |-> R(0..5), f |-> <<R(0..3), R(-1..4), R(0..2)>>]
    [] k = 2 -> [op |-> "resize", n |-> R(0..6)]
    [] k \in 3..5 /\ N(s) > 0 -> [op |-> "pos", i |-> i, p |-> Pt(k)]
    [] k \in 6..9 /\ N(s) > 0 -> [op |-> "range", i |-> i, a |-> a, b |-> a + R(Lens)]
    [] k = 10 /\ N(s) > 0 -> [op |-> "instant", i |-> i, a |-> R(-2..12)]
    [] k = 11 /\ N(s) > 0 -> [op |-> R({"any", "query"}), i |-> i, t |-> R(0..12)]
    [] OTHER -> [op |-> "query", t |-> R(-3..20)]
GenNext == /\ UNCHANGED t
           /\ \E k \in {R(1..26)}, i \in {R(1..(IF N(st) = 0 THEN 1 ELSE N(st)))}, a \in {R(-2..12)} :
              \E c \in {Cmd(st, k, i, a)} : hist' = Append(hist, c) /\ st' = Step(st, c)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
