------------------------------ MODULE FootTrace ------------------------------
EXTENDS Foot, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = NoFoot /\ l = 1
Allowed(e) ==
  LET c == e.cmd IN
  CASE c.op = "reset"  -> TRUE
    [] c.op = "set"    -> e.ret = (IF SetOk(c.xl, c.yl) THEN 1 ELSE 0)
    [] c.op = "points" -> IF st.set THEN e.ret = 1 /\ e.out = Points(st, c.rot, c.pos) ELSE e.ret = 0
    [] c.op = "ratios" -> RatiosOk(st, c.cx, c.cy, e.out)
    [] c.op = "forces" -> e.ret = 1 /\ ForcesOk(st, c.f, c.cx, c.cy, c.tz, e.out)
    [] OTHER -> FALSE
Step(e) == CASE e.cmd.op = "reset" -> NoFoot
             [] e.cmd.op = "set" -> SetStep(st, e.cmd.xl, e.cmd.yl, e.cmd.tl)
             [] OTHER -> st
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Allowed(e) THEN st' = Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", st>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
