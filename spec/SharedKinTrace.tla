------------------------------ MODULE SharedKinTrace ------------------------------
EXTENDS SharedKin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sys, l
Init == sys = [models |-> <<>>, objs |-> <<>>] /\ l = 1
Explain(e) == LET c == e.cmd IN
  IF c.op = "q" THEN LET o == sys.objs[c.obj] IN <<"answer", Answer(o, c, c.st), "base", o.base, "gravity", o.g, "tolerance", o.tol, "earlier", {<<s, Answer(o, c, s)>> : s \in Reusable(o, c.st) \ {c.st}}>>
  ELSE IF c.op = "cfg" THEN <<[sys.objs[c.obj] EXCEPT !.rob = "omitted"]>>
  ELSE IF "obj" \in DOMAIN c THEN <<sys.objs[c.obj].cand>> ELSE <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(sys, e) THEN sys' = Apply(sys, e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<sys, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
