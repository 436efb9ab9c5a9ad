----------------------------- MODULE Activation -----------------------------
(***************************************************************************)
(* Property C24: smooth activations.  Distances are x = a ln 2 with a an   *)
(* integer, so that with an integer scaling k and n = k a                  *)
(*   tanh(k x) = (4^n - 1) / (4^n + 1)     sech(k x) = 2 2^n / (4^n + 1)   *)
(* are rational.  Everything is in fixed point with unit 1/S.              *)
(***************************************************************************)
EXTENDS Integers
S == 4096
AbsI(x) == IF x < 0 THEN -x ELSE x
SgnDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
Mul(a, b) == SgnDiv(a * b, S)
TanhPos(n) == SgnDiv(S * (4^n - 1), 4^n + 1)
Tanh(n) == IF n >= 0 THEN (IF n > 8 THEN S ELSE TanhPos(n)) ELSE -(IF n < -8 THEN S ELSE TanhPos(-n))
SechPos(n) == IF n > 14 THEN 0 ELSE IF n > 8 THEN SgnDiv(2 * S, 2^n) ELSE SgnDiv(2 * S * 2^n, 4^n + 1)
Sech(n) == SechPos(AbsI(n))

\* <<value, first derivative, second derivative>> with respect to the distance
TanhJet(k, a) == LET t == Tanh(k * a) s == Sech(k * a) IN
                 <<t, k * Mul(s, s), -2 * k * k * Mul(t, Mul(s, s))>>
SechJet(k, a) == LET t == Tanh(k * a) s == Sech(k * a) IN
                 <<s, -k * Mul(s, t), k * k * (Mul(s, Mul(t, t)) - Mul(s, Mul(s, s)))>>

InitSt == [kind |-> "tanh", k |-> 1, off |-> FALSE, val |-> S]
Jet(s, a) == IF s.off THEN <<s.val, 0, 0>> ELSE IF s.kind = "tanh" THEN TanhJet(s.k, a) ELSE SechJet(s.k, a)
Tols(s) == IF s.off THEN <<0, 0, 0>> ELSE <<2, 4 * AbsI(s.k) + 2, 10 * s.k * s.k + 2>>
Step(s, c) == CASE c.op = "new" -> [kind |-> c.kind, k |-> 1, off |-> FALSE, val |-> S]
                [] c.op = "reset" -> InitSt
                [] c.op = "scale" -> [s EXCEPT !.k = c.k]
                [] c.op = "disable" -> [s EXCEPT !.off = TRUE, !.val = IF c.v = 99 THEN S ELSE c.v * S]
                [] OTHER -> s
EvalOk(s, a, out) == \A i \in 1..3 : AbsI(out[i] - Jet(s, a)[i]) <= Tols(s)[i]

\* theorems of the specification
Bounded(s, a) == ~s.off => AbsI(Jet(s, a)[1]) <= S
Parity(s, a) == ~s.off => IF s.kind = "tanh" THEN Jet(s, -a)[1] = -Jet(s, a)[1] /\ Jet(s, -a)[2] = Jet(s, a)[2]
                                             ELSE Jet(s, -a)[1] = Jet(s, a)[1] /\ Jet(s, -a)[2] = -Jet(s, a)[2]
Pythagoras(s, a) == AbsI(Mul(Tanh(s.k * a), Tanh(s.k * a)) + Mul(Sech(s.k * a), Sech(s.k * a)) - S) <= 4
AtZero(s) == ~s.off => Jet(s, 0) = IF s.kind = "tanh" THEN <<0, s.k * S, 0>> ELSE <<S, 0, -s.k * s.k * S>>
\* the first derivative is the slope of the value: the secant between two distances brackets it
Increasing(s, a) == (~s.off /\ s.kind = "tanh" /\ s.k > 0) => Jet(s, a)[1] <= Jet(s, a + 1)[1]
Theorems(s, a) == Bounded(s, a) /\ Parity(s, a) /\ Pythagoras(s, a) /\ AtZero(s) /\ Increasing(s, a)
=============================================================================
