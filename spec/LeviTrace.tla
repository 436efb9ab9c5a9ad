------------------------------ MODULE LeviTrace ------------------------------
EXTENDS Levi, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = Fresh /\ l = 1
\* what an evaluation shows: sizes before and after, null flag, value
Shows(M, o) == /\ o.r = M.r /\ o.c = M.c /\ o.er = M.r /\ o.ec = M.c
               /\ o.v = MVal(M, Now(st))
               /\ o.nul = 1 => IsZero(M)
Check(e) ==
  LET c == e.cmd IN
  CASE c.op = "eval" -> Shows(Slot(st, c.a), e.obs)
    [] c.op = "evalp" -> Shows(Un(Slot(st, c.a), c), e.obs)
    [] c.op = "all" -> \A k \in 1..NSlots : e.obs[k] = (IF st.sl[k].r = 0 THEN <<>> ELSE MVal(st.sl[k], Now(st)))
    [] c.op = "evalq" -> e.n = Len(st.sq) /\ \A i \in 1..Len(st.sq) : e.obs[i] = MVal(st.sq[i], Now(st))
    [] c.op = "dep" -> Depends(Slot(st, c.a), c.g, st.as) => e.ret = 1
    \* a value not seen yet is reported as new
    [] c.op = "new" -> st.rd[c.a] # MVal(Slot(st, c.a), Now(st)) => e.ret = 1
    \* a root of a power of two, in units of 2^-28
    [] c.op = "root" -> LET x == IF c.m = 1 THEN 536870912 ELSE 134217728 IN e.obs - x \in -8..8
    [] OTHER -> TRUE
Explain(e) == LET c == e.cmd IN
  CASE c.op = "eval" -> <<MVal(Slot(st, c.a), Now(st)), Slot(st, c.a)>>
    [] c.op = "evalp" -> <<MVal(Un(Slot(st, c.a), c), Now(st))>>
    [] c.op = "all" -> [k \in 1..NSlots |-> IF st.sl[k].r = 0 THEN <<>> ELSE MVal(st.sl[k], Now(st))]
    [] c.op = "evalq" -> [i \in 1..Len(st.sq) |-> MVal(st.sq[i], Now(st))]
    [] OTHER -> <<>>
Step(e) == IF e.cmd.op = "reset" THEN st' = Fresh ELSE st' = Apply(st, e.cmd)
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(e) THEN Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
