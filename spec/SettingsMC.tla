----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Settings, TLC, Json
CONSTANTS GenLen
VARIABLES st, hist, last
vars == <<st, hist, last>>
Init == st = InitSt /\ hist = <<>> /\ last = None
Drop(sq) == IF sq = <<>> THEN sq ELSE Tail(sq)
\* every single-field variation of a record
Vary(r) ==
  { [r EXCEPT !.n[f] = v] : f \in NumF, v \in {-1, 0, 2, 3, 8, 9, 1} } \cup
  { [r EXCEPT !.b[f] = 1 - @] : f \in FlagF } \cup { [r EXCEPT !.p[f] = 0] : f \in RefF } \cup { [r EXCEPT !.p[f] = 2] : f \in RefF } \cup
  { [r EXCEPT !.w[f] = Drop(@)] : f \in WeightF } \cup { [r EXCEPT !.w[f] = Append(@, 7)] : f \in WeightF } \cup
  { [r EXCEPT !.s[f] = v] : f \in FrameF, v \in {0, 3, 5} } \cup
  { [r EXCEPT !.e["complementarity"] = v] : v \in Comp } \cup { [r EXCEPT !.e["planarComplementarity"] = v] : v \in Plan } \cup
  { [r EXCEPT !.x[f][i] = -1] : f \in VecF, i \in 1..3 } \cup
  UNION { { [r EXCEPT !.q[i] = <<5, 4>>], [r EXCEPT !.q[i] = <<5, 5>>] } : i \in 1..Len(r.q) } \cup
  UNION { { [r EXCEPT !.qd[i] = <<5, 4>>], [r EXCEPT !.qd[i] = <<-5, -5>>] } : i \in 1..Len(r.qd) } \cup
  { [r EXCEPT !.q = Drop(@)], [r EXCEPT !.qd = Drop(@)], [r EXCEPT !.q = Append(@, <<0, 1>>)], [r EXCEPT !.qd = Append(@, <<0, 1>>)],
    [r EXCEPT !.pl = Drop(@)], [r EXCEPT !.pr = Append(@, <<1, 1, 1>>)], [r EXCEPT !.rl = Drop(@)], [r EXCEPT !.rr = Drop(@)],
    [r EXCEPT !.rr = Append(@, 0)], [r EXCEPT !.pl = Drop(@), !.pr = Drop(@)] } \cup
  UNION { { [r EXCEPT !.rl[i] = v] : v \in {-1, 0, 8, 9} } : i \in 1..Len(r.rl) } \cup
  UNION { { [r EXCEPT !.rr[i] = v] : v \in {-1, 0, 8, 9} } : i \in 1..Len(r.rr) }
Next == \E r \in Vary(Base(2, 2)) : st' = Step(st, [op |-> "set", rec |-> r]) /\ last' = r /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
\* what is in force is always acceptable, and only an acceptable record replaces it
InForce == st.valid => Acceptable(st.rec)
Refusal == [][ ~Acceptable(last') => st' = st ]_vars
ASSUME BaseOk

\* the exhaustive list of variations, one behaviour each: accept the base, then offer the variation, then the base again
Emit1 == last # None => PrintT("@@" \o ToJson(<<[op |-> "set", rec |-> Base(3, 3)], [op |-> "set", rec |-> last], [op |-> "ctor", rec |-> last]>>))
Depth1 == last = None
R(S) == RandomElement(S)
Seed(k) == CASE k = 1 \/ ~st.valid -> Base(R(0..4), R(0..4)) [] OTHER -> st.rec
GenNext == /\ Len(hist) < GenLen
           /\ \E k \in {R(1..8)} : \E b \in {Seed(k)} : \E v1 \in {R(Vary(b))} : \E v2 \in {IF k \in 2..6 THEN R(Vary(v1)) ELSE v1} :
              \E v3 \in {IF k \in 4..6 THEN R(Vary(v2)) ELSE v2} :
              \E c \in {[op |-> IF k = 8 THEN "ctor" ELSE "set", rec |-> v3]} : hist' = Append(hist, c) /\ st' = Step(st, c) /\ last' = v3
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
