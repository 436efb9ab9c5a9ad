------------------------------- MODULE FootMC -------------------------------
EXTENDS Foot, TLC, Json, SequencesExt
CONSTANTS MaxHalf, GenLen
VARIABLES st, cop, hist
vars == <<st, cop, hist>>
Even == {2 * k : k \in -1..MaxHalf}
Init == st = NoFoot /\ cop = <<0, 0>> /\ hist = <<>>
Next == /\ UNCHANGED hist
        /\ \/ \E xl \in Even, yl \in Even : st' = SetStep(st, xl, yl, <<1, 2, 3>>) /\ UNCHANGED cop
           \/ \E cx \in -(MaxHalf + 2)..(MaxHalf + 2), cy \in -(MaxHalf + 2)..(MaxHalf + 2) : cop' = <<cx, cy>> /\ UNCHANGED st
Spec == Init /\ [][Next]_vars
Correct == st.set => Theorems(st, cop[1], cop[2])
ValidDims == st.set => st.l > 0 /\ st.d > 0

R(S) == RandomElement(S)
Vecs(n) == { <<R(-n..n), R(-n..n), R(-n..n)>> }
SetC == \E t \in Vecs(6) : \E x \in {R({2, 4, 6, 8, 10, 16})}, y \in {R({2, 4, 6, 8, 10})} : \E bad \in {R(1..8)} :
          \E xl \in {IF bad = 1 THEN R({0, -2, -4}) ELSE x}, yl \in {IF bad = 2 THEN R({0, -2, -6}) ELSE y} :
          /\ st' = SetStep(st, xl, yl, t)
          /\ hist' = Append(hist, [op |-> "set", xl |-> xl, yl |-> yl, tl |-> t])
PtC == \E t \in Vecs(9), m \in {R(CubeRotations)} :
          /\ hist' = Append(hist, [op |-> "points", rot |-> m, pos |-> t]) /\ UNCHANGED st
Cop(h) == IF R(1..4) = 1 THEN R({-h, h}) ELSE IF R(1..6) = 1 THEN R(-(h + 3)..(h + 3)) ELSE R(-h..h)
FoC == /\ st.set
       /\ \E cx \in {Cop(st.l \div 2)}, cy \in {Cop(st.d \div 2)}, f \in Vecs(8), z \in {R({8, 16, 32, 4, 0, -8, 20})}, tz \in {R(-10..10)} :
          \E g \in {<<f[1], f[2], z>>} :
          /\ hist' = Append(hist, [op |-> "forces", f |-> g, cx |-> cx, cy |-> cy, tz |-> tz, m |-> MomentFrame(st, g, cx, cy, tz)])
          /\ UNCHANGED st
RaC == /\ st.set
       /\ \E cx \in {Cop(st.l \div 2)}, cy \in {Cop(st.d \div 2)} :
          hist' = Append(hist, [op |-> "ratios", cx |-> cx, cy |-> cy]) /\ UNCHANGED st
GenNext == /\ UNCHANGED cop
           /\ \E k \in {R(1..12)} :
              CASE k \in 1..2 -> SetC [] k = 3 -> PtC [] k \in 4..5 /\ st.set -> RaC [] k \in 6..12 /\ st.set -> FoC [] OTHER -> PtC
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
