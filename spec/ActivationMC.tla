---------------------------- MODULE ActivationMC ----------------------------
EXTENDS Activation, Sequences, TLC, Json
CONSTANTS Ks, As, GenLen
KsSet == {-3, -2, -1, 0, 1, 2, 3, 4, 5}
AsSet == -6..6 \cup {-9, 9, 40}
VARIABLES st, a, hist
vars == <<st, a, hist>>
Cmds == {[op |-> "new", kind |-> x] : x \in {"tanh", "sech"}} \cup {[op |-> "scale", k |-> x] : x \in Ks}
        \cup {[op |-> "disable", v |-> x] : x \in {-2, 0, 1, 3, 99}}
Init == st = InitSt /\ a = 0 /\ hist = <<>>
Next == \/ \E c \in Cmds : st' = Step(st, c) /\ UNCHANGED <<a, hist>>
        \/ \E x \in As : a' = x /\ UNCHANGED <<st, hist>>
Spec == Init /\ [][Next]_vars
Correct == Theorems(st, a)
StaysOff == \A k \in KsSet : Step(st, [op |-> "scale", k |-> k]).off = st.off

GenNext == /\ UNCHANGED a
           /\ \E k \in {RandomElement(1..20)} :
              \E c \in {IF k = 1 THEN [op |-> "new", kind |-> RandomElement({"tanh", "sech"})]
                        ELSE IF k \in 2..5 THEN [op |-> "scale", k |-> RandomElement(Ks)]
                        ELSE IF k = 6 /\ Len(hist) > 12 THEN [op |-> "disable", v |-> RandomElement({-2, 0, 1, 3, 99})]
                        ELSE [op |-> "eval", a |-> RandomElement(As)]} :
              hist' = Append(hist, c) /\ st' = Step(st, c)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
