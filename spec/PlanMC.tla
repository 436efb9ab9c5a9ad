------------------------------- MODULE PlanMC -------------------------------
EXTENDS Plan, TLC, Json
CONSTANTS MaxN, GenLen
VARIABLES w, hist
vars == <<w, hist>>
Init == w = Blank /\ hist = <<>>
P(a, b) == [f |-> <<a, 0, b>>, p |-> <<b, a, 1>>]
\* small universe
Xs == { [l |-> Rep(n, P(a, 2)), r |-> Rep(m, P(1, a)), mom |-> <<1, 2, 3, 4, 5, 6>>, com |-> <<a, 1, 2>>, bp |-> <<1, a, 3>>, br |-> Id3, q |-> Rep(k, a), t |-> 1]
          : n \in 0..MaxN, m \in 0..MaxN, k \in 0..MaxN, a \in {1, 4} }
Cmds == { [op |-> "set", w |-> "s", i |-> 1, x |-> x] : x \in Xs } \cup { [op |-> o, w |-> "s", i |-> i, nd |-> nd, np |-> np]
            : o \in {"resize", "zero", "copy", "new"}, i \in 1..2, nd \in 0..MaxN, np \in 0..MaxN }
Next == \E c \in Cmds : w' = Step(w, c) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
Defined(s) == \A i \in 1..3 : s.com[i] # U
Correct == \A i \in 1..2 : (Defined(w.s[i]) /\ \A k \in 1..Len(w.s[i].l) : w.s[i].l[k].p # U3) /\ (\A k \in 1..Len(w.s[i].r) : w.s[i].r[k].p # U3) => Whole(w.s[i])
Sizes == SameSize(w.s[1], w.s[2]) <=> (Len(w.s[1].l) = Len(w.s[2].l) /\ Len(w.s[1].r) = Len(w.s[2].r) /\ Len(w.s[1].q) = Len(w.s[2].q))
\* ---------------------------------------------------------------- generator
R(S) == RandomElement(S)
V(n, x) == <<R(-n..n), R(-n..n), R(-n..n)>>
Force(x) == IF R(1..2) = 1 THEN V(9, x) ELSE R({<<0, 3, 4>>, <<2, -1, 2>>, <<0, 0, 5>>, <<4, 3, 12>>, <<0, 0, 0>>})
RandS(n, m, k) == [l |-> [i \in 1..n |-> [f |-> Force(i), p |-> V(9, i)]], r |-> [i \in 1..m |-> [f |-> Force(i), p |-> V(9, i)]],
                   mom |-> V(9, n) \o V(9, m), com |-> V(9, n), bp |-> V(9, n), br |-> R(CubeRotations), q |-> [i \in 1..k |-> R(-9..9)], t |-> R(-5..20)]
RandU(n, m, k) == [l |-> [i \in 1..n |-> [u |-> V(9, i), v |-> V(9, i)]], r |-> [i \in 1..m |-> [u |-> V(9, i), v |-> V(9, i)]],
                   bv |-> V(9, n), bq |-> V(9, n) \o <<R(-9..9)>>, q |-> [i \in 1..k |-> R(-9..9)], t |-> R(-5..20)]
Full(s) == Len(s.l) > 0 /\ Len(s.r) > 0 /\ s.com[1] # U /\ s.l[Len(s.l)].p[1] # U /\ s.r[Len(s.r)].p[1] # U
Cmd(k, i, n, m, nd, x) ==
  CASE k \in 1..5 -> [op |-> "set", w |-> "s", i |-> i, x |-> RandS(n, IF R(1..4) = 1 THEN m ELSE n, nd)]
    [] k \in 6..7 -> [op |-> "set", w |-> "u", i |-> i, x |-> RandU(n, IF R(1..4) = 1 THEN m ELSE n, nd)]
    [] k \in 8..11 -> [op |-> IF k = 8 THEN "new" ELSE IF k = 9 THEN "resize" ELSE IF k = 10 THEN "zero" ELSE "copy", w |-> x, i |-> i, nd |-> nd, np |-> n]
    [] k \in 12..13 -> [op |-> "same", w |-> x]
    [] k \in 14..15 -> [op |-> "check", w |-> x, i |-> i, nd |-> nd, np |-> n]
    [] k = 16 /\ w.s[i].com[1] # U -> [op |-> "centroid", i |-> i]
    [] k \in 17..19 /\ Full(w.s[i]) /\ Len(w.s[i].l) # 3 /\ Len(w.s[i].r) # 3 -> [op |-> "forward", i |-> i, d |-> V(3, i)]
    [] k = 20 /\ Full(w.s[i]) -> [op |-> "guess", i |-> i, c |-> V(9, i), v |-> V(3, i)]
    [] k \in 21..23 /\ w.g.on -> [op |-> "gget", t |-> R(-4..12)]
    [] k = 24 -> [op |-> "hold", w |-> x, i |-> i, t |-> R(0..9)]
    [] OTHER -> [op |-> "expo", a |-> R(-5..5), k |-> R(-2..2), c |-> R(-5..5), d |-> R(-2..2), t |-> R(-2..2)]
GenNext == /\ Len(hist) < GenLen
           /\ \E k \in {R(1..25)}, i \in {R(1..2)}, n \in {R(0..4)}, m \in {R(0..4)}, nd \in {R(0..5)}, x \in {R({"s", "u"})} :
              \E c \in {Cmd(k, i, n, m, nd, x)} : hist' = Append(hist, c) /\ w' = Step(w, c)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
