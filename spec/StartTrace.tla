------------------------------- MODULE StartTrace -------------------------------
EXTENDS Start, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sys, l
Init == sys = [w |-> NoWorld, x |-> NoState] /\ l = 1
Explain(e) == LET c == e.cmd IN
  CASE c.op = "fill" /\ CanFill(sys.w, c.s) -> <<Filled(sys.w, c.s), Right(sys.w, c.s)>>
    [] c.op = "min" /\ CanMin(sys.w, sys.x) -> <<Exact(Lowered(sys.w, sys.x))>>
    [] OTHER -> <<"no success">>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(sys, e) THEN sys' = Apply(sys, e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<sys, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
