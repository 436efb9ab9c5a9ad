---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS Settings, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = InitSt /\ l = 1
Allowed(e, n) == /\ e.valid = (IF n.valid THEN 1 ELSE 0)
                 /\ e.cmd.op = "set" => e.ret = (IF Acceptable(e.cmd.rec) THEN 1 ELSE 0)
                 /\ n.valid => e.rec = n.rec
                 \* the defaults for a model that has the expected frames are acceptable and fully initialised
                 /\ e.cmd.op = "defaults" => e.ok = 1 /\ e.same = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] n == Step(st, e.cmd) IN
           IF Allowed(e, n) THEN st' = n /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", n>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
