-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* Property C23: the plan data structures State and Control, the translated*)
(* guess and the exponential weight.  A slot holds                         *)
(*   state   [l, r, mom, com, bp, br, q, t]  (l, r: sequences of [f, p])   *)
(*   control [l, r, bv, bq, q, t]            (l, r: sequences of [u, v])   *)
(* All entries are integers; U marks an entry the interface leaves open    *)
(* (freshly grown storage).                                                *)
(***************************************************************************)
EXTENDS Vec3
U == 777777
U3 == <<U, U, U>>
Z6 == <<0, 0, 0, 0, 0, 0>>
Z4 == <<0, 0, 0, 0>>
UState == [l |-> <<>>, r |-> <<>>, mom |-> <<U, U, U, U, U, U>>, com |-> U3, bp |-> U3, br |-> <<U3, U3, U3>>, q |-> <<>>, t |-> U]
UControl == [l |-> <<>>, r |-> <<>>, bv |-> U3, bq |-> <<U, U, U, U>>, q |-> <<>>, t |-> U]
Rep(n, x) == [i \in 1..n |-> x]
Grow(sq, n, x) == [i \in 1..n |-> IF i <= Len(sq) THEN sq[i] ELSE x]

ZeroState(s) == [l |-> Rep(Len(s.l), [f |-> Zero3, p |-> Zero3]), r |-> Rep(Len(s.r), [f |-> Zero3, p |-> Zero3]),
                 mom |-> Z6, com |-> Zero3, bp |-> Zero3, br |-> Id3, q |-> Rep(Len(s.q), 0), t |-> 0]
ZeroControl(s) == [l |-> Rep(Len(s.l), [u |-> Zero3, v |-> Zero3]), r |-> Rep(Len(s.r), [u |-> Zero3, v |-> Zero3]),
                   bv |-> Zero3, bq |-> Z4, q |-> Rep(Len(s.q), 0), t |-> 0]
ResizeState(s, nd, np) == [s EXCEPT !.l = Grow(s.l, np, [f |-> U3, p |-> U3]), !.r = Grow(s.r, np, [f |-> U3, p |-> U3]),
                                    !.q = IF Len(s.q) = nd THEN s.q ELSE Rep(nd, U)]
ResizeControl(s, nd, np) == [s EXCEPT !.l = Grow(s.l, np, [u |-> U3, v |-> U3]), !.r = Grow(s.r, np, [u |-> U3, v |-> U3]),
                                      !.q = IF Len(s.q) = nd THEN s.q ELSE Rep(nd, U)]
SameSize(a, b) == Len(a.l) = Len(b.l) /\ Len(a.r) = Len(b.r) /\ Len(a.q) = Len(b.q)
CheckSize(a, nd, np) == Len(a.l) = np /\ Len(a.r) = np /\ Len(a.q) = nd

RECURSIVE SumP(_)
SumP(k) == IF k = <<>> THEN Zero3 ELSE VAdd(Head(k).p, SumP(Tail(k)))
RECURSIVE MinF2(_)
MinF2(k) == LET h == Dot(Head(k).f, Head(k).f) IN IF Len(k) = 1 THEN h ELSE MinI(h, MinF2(Tail(k)))
\* times the number of points
Centroid(s) == VAdd(SumP(s.l), SumP(s.r))
LeftForward(s, d) == Dot(SumP(s.l), d) * Len(s.r) > Dot(SumP(s.r), d) * Len(s.l)
ForwardForce2(s, d) == IF LeftForward(s, d) THEN MinF2(s.l) ELSE MinF2(s.r)

\* the guess at time t: the initial state carried along with the centre of mass reference
Shift(sq, d) == [i \in 1..Len(sq) |-> [sq[i] EXCEPT !.p = VAdd(sq[i].p, d)]]
Guess(s, com, t) == LET d == VSub(com, s.com) IN
   [s EXCEPT !.com = com, !.mom = Z6, !.bp = VAdd(s.bp, d), !.l = Shift(s.l, d), !.r = Shift(s.r, d), !.t = t]
ComAt(g, t) == VAdd(g.c, VScale(t, g.v))
Pow2(n) == 2 ^ n
\* 1024 (a 2^(k (t - d)) + c)
Expo(c) == LET e == c.k * (c.t - c.d) IN c.a * (IF e >= 0 THEN 1024 * Pow2(e) ELSE 1024 \div Pow2(-e)) + 1024 * c.c

Blank == [s |-> [i \in 1..2 |-> UState], u |-> [i \in 1..2 |-> UControl], g |-> [on |-> FALSE, s |-> UState, c |-> Zero3, v |-> Zero3]]
Other(i) == 3 - i
Step(w, c) ==
  CASE c.op = "reset" -> Blank
    [] c.op = "new" /\ c.w = "s" -> [w EXCEPT !.s[c.i] = ZeroState(ResizeState(UState, c.nd, c.np))]
    [] c.op = "new" /\ c.w = "u" -> [w EXCEPT !.u[c.i] = ZeroControl(ResizeControl(UControl, c.nd, c.np))]
    [] c.op = "resize" /\ c.w = "s" -> [w EXCEPT !.s[c.i] = ResizeState(@, c.nd, c.np)]
    [] c.op = "resize" /\ c.w = "u" -> [w EXCEPT !.u[c.i] = ResizeControl(@, c.nd, c.np)]
    [] c.op = "zero" /\ c.w = "s" -> [w EXCEPT !.s[c.i] = ZeroState(@)]
    [] c.op = "zero" /\ c.w = "u" -> [w EXCEPT !.u[c.i] = ZeroControl(@)]
    [] c.op = "set" /\ c.w = "s" -> [w EXCEPT !.s[c.i] = c.x]
    [] c.op = "set" /\ c.w = "u" -> [w EXCEPT !.u[c.i] = c.x]
    [] c.op = "copy" /\ c.w = "s" -> [w EXCEPT !.s[c.i] = w.s[Other(c.i)]]
    [] c.op = "copy" /\ c.w = "u" -> [w EXCEPT !.u[c.i] = w.u[Other(c.i)]]
    [] c.op = "guess" -> [w EXCEPT !.g = [on |-> TRUE, s |-> w.s[c.i], c |-> c.c, v |-> c.v]]
    [] OTHER -> w

\* theorems
Whole(s) == /\ CheckSize(s, Len(s.q), Len(s.l)) <=> Len(s.l) = Len(s.r)
            /\ SameSize(s, ZeroState(s))
            /\ (Len(s.l) = Len(s.r) => ResizeState(s, Len(s.q), Len(s.l)) = s)
            /\ Guess(s, s.com, s.t) = [s EXCEPT !.mom = Z6]
            /\ \A d \in {<<1, -2, 3>>} : Centroid(Guess(s, VAdd(s.com, d), 0)) = VAdd(Centroid(s), VScale(Len(s.l) + Len(s.r), d))
=============================================================================
