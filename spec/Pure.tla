---------------------------------- MODULE Pure ----------------------------------
(***************************************************************************)
(* Property C12: an answer is a function of the question.  Which function, *)
(* is the business of Terms, RTerms and the properties decided with them;  *)
(* here the function is learned: `known` gives the answer to each question *)
(* (a term with its present parameters, what is asked, at which time,      *)
(* state, control and multipliers) which was put before, and an object     *)
(* that was never asked anything gives the answer it should have.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
\* entries <<row, column, value in 1/10000>>, those not listed are zero
Val(es) == LET S == {es[i] : i \in 1..Len(es)} IN [c \in {<<e[1], e[2]>> : e \in S} |-> (CHOOSE e \in S : e[1] = c[1] /\ e[2] = c[2])[3]]
At(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Near(a, b) == Abs(a - b) <= 3 + Abs(a) \div 1000000
SameEntries(a, b) == a = b \/ LET f == Val(a)  g == Val(b) IN \A c \in DOMAIN f \cup DOMAIN g : Near(At(f, c), At(g, c))
SameAnswer(a, b) == a[1] = b[1] /\ SameEntries(a[2], b[2])
SetOf(a) == {<<a[2][i][1], a[2][i][2]>> : i \in 1..Len(a[2])}
SamePattern(a, b) == a[1] = b[1] /\ SetOf(a) = SetOf(b)
\* the question behind a call to term t
Question(t, c) == CASE c.op = "bounds" -> <<c.id, t, "bounds">> [] c.op = "sparsity" -> <<c.id, t, "sparsity", c.fn>>
                    [] OTHER -> <<c.id, t, c.fn, c.x, c.u, c.t, c.l>>
Allowed(known, q, ans, twin) == LET Same(a, b) == IF q[3] = "sparsity" THEN SamePattern(a, b) ELSE SameAnswer(a, b) IN
  /\ Same(ans, twin)
  /\ q \in DOMAIN known => Same(ans, known[q])
=============================================================================
