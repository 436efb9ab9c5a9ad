------------------------------ MODULE SolverTrace ------------------------------
EXTENDS Solver, Json, IOUtils
CONSTANT Aspects   \* of "life", "bounds", "terms", "plan"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l
Init == st = InitSt /\ l = 1
Bool(b) == IF b THEN 1 ELSE 0
Has(e, f) == f \in DOMAIN e
SameKinds(c, ms) == Len(c.kinds) = Len(ms) /\ \A i \in 1..Len(ms) : c.kinds[i] = ms[i].k
\* the parts of the answer which are not as they should be
Wrong(e) ==
  LET c == e.cmd  A(asp, ok) == IF ok THEN {} ELSE {asp} IN
  CASE c.op = "spec" -> A("settings refused", e.valid = 1) \cup (IF "life" \in Aspects THEN A("ret", e.ret = Bool(SpecOk(st, c))) ELSE {})
    [] c.op # "solve" -> IF "life" \in Aspects THEN A("ret", \E b \in Rets(st, c) : e.ret = Bool(b)) ELSE {}
    [] ~st.prep -> IF "life" \in Aspects THEN A("ret", e.ret = 0) \cup A("called", e.called = 0) \cup A("kept", e.kept = 1) ELSE {}
    [] OTHER ->
       LET ms == MeshesOf(st)  w == WorldOf(st.cfg) IN
       IF ~SameKinds(c, ms) THEN {"script"}
       ELSE IF e.called = 0 \/ ~Has(e, "nvar") THEN {"not called"}
       ELSE IF e.nvar # NVar(st) THEN {"number of variables"}
       ELSE (IF "life" \in Aspects THEN A("ret", e.ret = Bool(SolveOk(st, c))) \cup A("kept", e.kept = 1) ELSE {})
            \cup (IF Aspects \cap {"life", "plan"} # {} THEN A("guess", GuessFits(st, e.guess)) ELSE {})
            \cup (IF "bounds" \in Aspects THEN A("lower bounds", BoundsOk(st.cfg, ms, 1, st.init.x, e.lo)) \cup A("upper bounds", BoundsOk(st.cfg, ms, 2, st.init.x, e.up)) ELSE {})
            \cup (IF "terms" \in Aspects
                  THEN A("points", Len(e.pts) = Len(c.pts))
                       \cup UNION {PointWrong(st.cfg, w, ms, st.init.x, SeenQ0(st, e), c.pts[i], e.pts[i]) : i \in 1..Len(e.pts)}
                  ELSE {})
            \cup (IF "plan" \in Aspects /\ e.ret = 1 THEN A("plan", PlanOk(st, c.pts[1], e)) \cup A("kept", e.kept = 1) ELSE {})
Answer(e) == e.ret = 1
Explain(e) ==
  IF e.cmd.op = "solve" /\ st.prep
  THEN LET ms == MeshesOf(st) IN
       <<Wrong(e), "meshes", ms, "pend", st.pend, "fresh", st.fresh, "init", st.init.t,
         IF "bounds" \in Aspects THEN [i \in 1..Len(ms) |-> <<StateBound(st.cfg, 1, ms[i].t), ControlBound(st.cfg, 1, ms[1].t, ms[i].t), StateBound(st.cfg, 2, ms[i].t), ControlBound(st.cfg, 2, ms[1].t, ms[i].t)>>] ELSE <<>>>>
  ELSE <<Wrong(e), Rets(st, e.cmd)>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Wrong(e) = {} THEN st' = Step(st, e.cmd, Answer(e)) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<st, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
