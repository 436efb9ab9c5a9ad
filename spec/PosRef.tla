------------------------------- MODULE PosRef -------------------------------
(***************************************************************************)
(* Property C21: position references active over time ranges.  Times are   *)
(* integers (eighths of a second), positions and increase factors integers.*)
(* An entry is [pos, kind, a, b] with kind "range", "instant" or "any".    *)
(***************************************************************************)
EXTENDS Integers, Sequences
Zero3 == <<0, 0, 0>>
Blank == [pos |-> Zero3, kind |-> "instant", a |-> 0, b |-> 0]
InitSt == [made |-> FALSE, f |-> Zero3, es |-> <<>>]
Blanks(n) == [i \in 1..n |-> Blank]

In(e, t) == CASE e.kind = "any" -> TRUE [] OTHER -> e.a <= t /\ t <= e.b
ActiveSet(s, t) == { i \in 1..Len(s.es) : In(s.es[i], t) }
Active(s, t) == IF ActiveSet(s, t) = {} THEN 0 ELSE CHOOSE i \in ActiveSet(s, t) : \A j \in ActiveSet(s, t) : j <= i
Reference(s, t) == IF Active(s, t) = 0 THEN Zero3 ELSE s.es[Active(s, t)].pos
\* weight along axis k in units of 1/64: grows from 1 to (1 + factor)^2 along the range; flat if the range has no length
W(s, t, k) ==
  IF Active(s, t) = 0 THEN 0
  ELSE LET e == s.es[Active(s, t)]
           len == IF e.kind = "range" THEN e.b - e.a ELSE 0
           num == IF len = 0 THEN 8 ELSE (s.f[k] * (t - e.a) + len) * (8 \div len)
       IN num * num
Weight(s, t) == <<W(s, t, 1), W(s, t, 2), W(s, t, 3)>>

Resize(s, n) == [s EXCEPT !.es = [i \in 1..n |-> IF i <= Len(s.es) THEN s.es[i] ELSE Blank]]
Step(s, c) ==
  CASE c.op = "reset" -> InitSt
    [] c.op = "init" -> [made |-> TRUE, f |-> c.f, es |-> Blanks(c.n)]
    [] c.op = "resize" -> Resize(s, c.n)
    [] c.op = "pos" /\ c.i <= Len(s.es) -> [s EXCEPT !.es[c.i].pos = c.p]
    [] c.op = "range" /\ c.i <= Len(s.es) -> IF c.a <= c.b THEN [s EXCEPT !.es[c.i].kind = "range", !.es[c.i].a = c.a, !.es[c.i].b = c.b] ELSE s
    [] c.op = "instant" /\ c.i <= Len(s.es) -> [s EXCEPT !.es[c.i].kind = "instant", !.es[c.i].a = c.a, !.es[c.i].b = c.a]
    [] c.op = "any" /\ c.i <= Len(s.es) -> [s EXCEPT !.es[c.i].kind = "any"]
    [] OTHER -> s

\* theorems
Neutral(s, t) == ActiveSet(s, t) = {} => Reference(s, t) = Zero3 /\ Weight(s, t) = Zero3
StartsAtOne(s, t) == (Active(s, t) # 0 /\ s.es[Active(s, t)].a = t /\ s.es[Active(s, t)].kind = "range") => Weight(s, t) = <<64, 64, 64>>
EndsAt(s, t) == (Active(s, t) # 0 /\ s.es[Active(s, t)].b = t /\ s.es[Active(s, t)].kind = "range" /\ s.es[Active(s, t)].a < t)
                => \A k \in 1..3 : W(s, t, k) = 64 * (1 + s.f[k]) * (1 + s.f[k])
\* editing an inactive entry changes nothing now
Local(s, t) == \A i \in 1..Len(s.es) : (i \notin ActiveSet(s, t)) =>
                 Reference([s EXCEPT !.es[i].pos = <<9, 9, 9>>], t) = Reference(s, t)
Theorems(s, t) == Neutral(s, t) /\ StartsAtOne(s, t) /\ EndsAt(s, t) /\ Local(s, t)
=============================================================================
