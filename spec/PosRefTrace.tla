----------------------------- MODULE PosRefTrace -----------------------------
EXTENDS PosRef, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = InitSt /\ l = 1
Allowed(e) == CASE e.cmd.op = "query" -> e.valid = 1 /\ e.pos = Reference(st, e.cmd.t) /\ e.w = Weight(st, e.cmd.t)
                [] e.cmd.op = "pos" -> e.back = e.cmd.p
                [] OTHER -> TRUE
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Allowed(e) THEN st' = Step(st, e.cmd) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", st>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
