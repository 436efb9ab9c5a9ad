------------------------------ MODULE ExprsTrace ------------------------------
EXTENDS Exprs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sys, l
Init == sys = NewSys /\ l = 1
Explain(e) == LET c == e.cmd IN
  IF c.op = "ev" THEN LET h == sys.hs[c.h] IN <<"quantity", h, "state", sys.es[h.es].st, "value", ValueOf(sys, h, sys.es[h.es].st), "base", sys.base>>
  ELSE IF c.op = "cur" THEN <<sys.es[c.es].st>> ELSE <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF CheckE(sys, e) THEN sys' = ApplyE(sys, e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<sys, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
