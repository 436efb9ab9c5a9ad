--------------------------- MODULE LabellerTrace ---------------------------
(* Is the recorded trace of the implementation a behaviour of Labeller?     *)
EXTENDS Labeller, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Universe == <<"a", "b", "c", "d", "LeftForcePoint0", "LeftForcePoint1", "", "Left", "ghost">>
VARIABLES st, l
Init == st = InitSt /\ l = 1
Expected(e) == [ret |-> Ret(st, e.cmd), obs |-> Obs(Step(st, e.cmd), Universe)]
Allowed(e) == e.ret = Ret(st, e.cmd) /\ e.obs = Obs(Step(st, e.cmd), Universe) /\ Inv(Step(st, e.cmd))
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Allowed(e) THEN st' = Step(st, e.cmd) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Expected(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
