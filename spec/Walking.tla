------------------------------ MODULE Walking ------------------------------
(***************************************************************************)
(* Property C20: the walking reference (Utilities::SimpleWalkingState-     *)
(* Machine).  Times are integers in units of 1/16 s (horizons are multiples*)
(* of ten units, so that 0.6 and 0.3 of a horizon are integers); positions,*)
(* forces and thresholds are integers.  A measured state is                *)
(*   [t, l, r]  with l, r sequences of [p |-> position, f |-> force].      *)
(* Two references are published: the step being performed (1) and the next *)
(* one (2).  The next one is "parked" one second beyond the horizon until  *)
(* it is planned.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
V0 == <<0, 0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
DotP(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Second == 16
NoWalk == [made |-> FALSE, gen |-> 0, inc |-> V0, sd |-> 0, H |-> 0, md |-> 0, ft |-> 0, pt |-> 0,
           r1 |-> [pos |-> V0, a |-> 0, b |-> 0], r2 |-> [pos |-> V0, a |-> 0, b |-> 0]]

RECURSIVE SumP(_)
SumP(k) == IF k = <<>> THEN V0 ELSE Add(Head(k).p, SumP(Tail(k)))
RECURSIVE MinF2(_)
MinF2(k) == LET h == DotP(Head(k).f, Head(k).f) IN
            IF Len(k) = 1 THEN h ELSE LET m == MinF2(Tail(k)) IN IF h < m THEN h ELSE m
NP(x) == Len(x.l) + Len(x.r)
\* squared distance of the feet centroid from a position, times (number of points)^2
Err2(x, p) == LET e == Sub(Add(SumP(x.l), SumP(x.r)), Mul(NP(x), p)) IN DotP(e, e)
LeftForward(x, d) == DotP(SumP(x.l), d) * Len(x.r) > DotP(SumP(x.r), d) * Len(x.l)
ForwardForce2(x, d) == IF LeftForward(x, d) THEN MinF2(x.l) ELSE MinF2(x.r)
\* the forward foot carries less than the threshold on some point
Unloaded(s, x) == s.ft > 0 /\ ForwardForce2(x, s.inc) < s.ft * s.ft
Reached(s, x) == s.pt > 0 /\ Err2(x, s.r1.pos) < s.pt * s.pt * NP(x) * NP(x)
H06(s) == (6 * s.H) \div 10
H03(s) == (3 * s.H) \div 10
Parked(s) == s.r2.a > s.H

AcceptInit(c) == c.ft >= 0 /\ c.md <= c.H /\ c.md <= c.sd
InitStep(s, c) ==
  IF ~AcceptInit(c) THEN s
  ELSE [made |-> TRUE, gen |-> s.gen + 1, inc |-> c.inc, sd |-> c.sd, H |-> c.H, md |-> c.md, ft |-> c.ft, pt |-> c.pt,
        r1 |-> [pos |-> c.start, a |-> 0, b |-> c.sd],
        r2 |-> [pos |-> c.start, a |-> c.H + Second, b |-> c.H + Second]]

\* 1. the next step is planned when the present one is reached in the future plan, or lasted too long
Plan(s, fut) ==
  IF Parked(s) /\ s.r1.b <= H06(s) /\ (Reached(s, fut) \/ s.r1.b - s.r1.a > 2 * s.sd)
  THEN [s EXCEPT !.r2 = [pos |-> Add(s.r1.pos, s.inc), a |-> s.H, b |-> s.H + s.sd]]
  ELSE s
\* 2. time passes
Hold(s, cur) == s.r1.a - cur.t < H03(s) /\ Unloaded(s, cur)
Due(s, cur) == s.r1.a - cur.t + s.sd < s.md
Move(s, cur) ==
  LET st == s.r1.a - cur.t IN
  IF Parked(s) THEN [s EXCEPT !.r1.a = st, !.r1.b = IF st + s.sd > H06(s) THEN st + s.sd ELSE H06(s)]
  ELSE IF Hold(s, cur) THEN [s EXCEPT !.r1.a = st]
  ELSE IF Due(s, cur) THEN [s EXCEPT !.r1 = [pos |-> s.r2.pos, a |-> 0, b |-> s.sd],
                                     !.r2.a = s.H + Second, !.r2.b = s.H + Second]
  ELSE [s EXCEPT !.r1.a = st, !.r1.b = st + s.sd, !.r2.a = s.r2.a - cur.t, !.r2.b = s.r2.a - cur.t + s.sd]
Advance(s, cur, fut) == IF s.made THEN Move(Plan(s, fut), cur) ELSE s

Step(s, c) ==
  CASE c.op = "reset" -> NoWalk
    [] c.op = "init" -> InitStep(s, c)
    [] c.op = "adv" -> Advance(s, c.cur, c.fut)
    [] OTHER -> s
Result(s, c) == CASE c.op = "init" -> AcceptInit(c) [] c.op = "adv" -> s.made [] OTHER -> TRUE

\* ------------------------------------------------------------- theorems
WellFormed(s) == s.made => /\ s.r1.a <= s.r1.b /\ s.r2.a <= s.r2.b /\ s.r1.a <= 0
                           /\ (Parked(s) => s.r2.pos = s.r1.pos /\ s.r2.a = s.H + Second)
                           /\ (~Parked(s) => s.r2.pos = Add(s.r1.pos, s.inc) /\ s.r2.b = s.r2.a + s.sd)
\* the performed step is replaced only by the planned one, only when due and the forward foot is loaded
SwitchOk(s, cur, fut, n) ==
  (s.made /\ n.r1.pos # s.r1.pos) => /\ n.r1.pos = Add(s.r1.pos, s.inc) /\ n.r1.a = 0 /\ n.r1.b = s.sd /\ Parked(n)
                                     /\ s.r1.a - cur.t + s.sd < s.md
                                     /\ ~(s.r1.a - cur.t < H03(s) /\ Unloaded(s, cur))
PlanOk(s, cur, fut, n) ==
  (s.made /\ Parked(s) /\ ~Parked(n)) => s.r1.b <= H06(s) /\ (Reached(s, fut) \/ s.r1.b - s.r1.a > 2 * s.sd)
=============================================================================
