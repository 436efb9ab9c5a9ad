----------------------------- MODULE PlanTrace -----------------------------
EXTENDS Plan, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, l
Init == w = Blank /\ l = 1
\* observed against expected, entry by entry; open entries match anything
E1(o, x) == x = U \/ o = x
EN(o, x) == Len(o) = Len(x) /\ \A i \in 1..Len(x) : E1(o[i], x[i])
EM(o, x) == Len(o) = Len(x) /\ \A i \in 1..Len(x) : EN(o[i], x[i])
MatchS(o, x) == /\ Len(o.l) = Len(x.l) /\ \A i \in 1..Len(x.l) : EN(o.l[i].f, x.l[i].f) /\ EN(o.l[i].p, x.l[i].p)
                /\ Len(o.r) = Len(x.r) /\ \A i \in 1..Len(x.r) : EN(o.r[i].f, x.r[i].f) /\ EN(o.r[i].p, x.r[i].p)
                /\ EN(o.mom, x.mom) /\ EN(o.com, x.com) /\ EN(o.bp, x.bp) /\ EM(o.br, x.br) /\ EN(o.q, x.q) /\ E1(o.t, x.t)
MatchU(o, x) == /\ Len(o.l) = Len(x.l) /\ \A i \in 1..Len(x.l) : EN(o.l[i].u, x.l[i].u) /\ EN(o.l[i].v, x.l[i].v)
                /\ Len(o.r) = Len(x.r) /\ \A i \in 1..Len(x.r) : EN(o.r[i].u, x.r[i].u) /\ EN(o.r[i].v, x.r[i].v)
                /\ EN(o.bv, x.bv) /\ EN(o.bq, x.bq) /\ EN(o.q, x.q) /\ E1(o.t, x.t)
B(x) == IF x THEN 1 ELSE 0
Pair(x, v, u) == IF x = "s" THEN v ELSE u
Ret(e) == LET c == e.cmd IN
  CASE c.op = "same" -> e.ret = B(Pair(c.w, SameSize(w.s[1], w.s[2]), SameSize(w.u[1], w.u[2])))
    [] c.op = "check" -> e.ret = B(Pair(c.w, CheckSize(w.s[c.i], c.nd, c.np), CheckSize(w.u[c.i], c.nd, c.np)))
    \* n times the centroid; no points, no centroid to speak of: the origin
    [] c.op = "centroid" -> EN(e.sum, Centroid(w.s[c.i])) \/ \E i \in 1..Len(w.s[c.i].l) : w.s[c.i].l[i].p[1] = U
    [] c.op = "forward" -> e.left = B(LeftForward(w.s[c.i], c.d)) /\ e.f2 = ForwardForce2(w.s[c.i], c.d)
    [] c.op = "gget" -> e.valid = 1 /\ MatchS(e.x, Guess(w.g.s, ComAt(w.g, c.t), c.t))
    [] c.op = "hold" -> e.valid = 1 /\ (c.w = "s" => MatchS(e.x, w.s[c.i])) /\ (c.w = "u" => MatchU(e.x, w.u[c.i]))
    [] c.op = "expo" -> e.valid = 1 /\ e.y = Expo(c)
    [] OTHER -> TRUE
Allowed(e, n) == /\ Ret(e)
                 /\ e.cmd.op \in {"new", "resize", "zero", "copy", "set", "guess"} =>
                      /\ \A i \in 1..2 : MatchS(e.s[i], n.s[i])
                      /\ \A i \in 1..2 : MatchU(e.u[i], n.u[i])
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] n == Step(w, e.cmd) IN
           IF Allowed(e, n) THEN w' = n /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", n>>) /\ FALSE
Spec == Init /\ [][Next]_<<w, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
