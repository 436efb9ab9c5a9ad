---------------------------- MODULE TimelyTrace ----------------------------
EXTENDS Timely, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = InitSt /\ l = 1
Allowed(e) ==
  CASE e.cmd.op = "reset" -> TRUE
    [] e.cmd.op = "load"  -> e.ret = 1
    [] e.cmd.op = "set"   -> SetOk(st, e.cmd.list, e.ret)
    [] e.cmd.op = "get"   -> IF st.loaded THEN GetOk(st, e.cmd.t, e.ret) ELSE e.ret = -1
    [] OTHER -> FALSE
Step(e) ==
  CASE e.cmd.op = "reset" -> InitSt
    [] e.cmd.op = "load"  -> [st EXCEPT !.loaded = TRUE]
    [] e.cmd.op = "set"   -> SetStep(st, e.cmd.list)
    [] e.cmd.op = "get"   -> IF st.loaded THEN GetStep(st, e.cmd.t, e.ret) ELSE st
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Allowed(e) THEN st' = Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", st>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
