---------------------------- MODULE WalkingTrace ----------------------------
EXTENDS Walking, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = NoWalk /\ l = 1
\* published references, whether they are still the same object, and the result of the call
Allowed(e, n) ==
  e.cmd.op = "reset" \/
  /\ (e.ret = 1) <=> Result(st, e.cmd)
  /\ e.has = IF n.made THEN 1 ELSE 0
  /\ n.made => /\ e.r1 = n.r1 /\ e.r2 = n.r2
               /\ e.same = (IF n.gen = st.gen THEN 1 ELSE 0)
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] n == Step(st, e.cmd) IN
           IF Allowed(e, n) THEN st' = n /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", n>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
