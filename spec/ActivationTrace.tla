--------------------------- MODULE ActivationTrace ---------------------------
EXTENDS Activation, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = InitSt /\ l = 1
Allowed(e) == e.cmd.op = "eval" => EvalOk(st, e.cmd.a, e.out)
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Allowed(e) THEN st' = Step(st, e.cmd) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", st, Jet(st, e.cmd.a)>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
