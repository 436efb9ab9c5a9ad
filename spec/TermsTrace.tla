------------------------------ MODULE TermsTrace ------------------------------
EXTENDS Terms, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, ts, l
Init == w = [n |-> 0] /\ ts = <<>> /\ l = 1
\* several choices may be acceptable: a cost without a declared pattern is treated as dense
Check(e) ==
  LET c == e.cmd IN
  CASE c.op = "bounds" -> LET t == ts[c.id]  b == Bounds(t) IN
         /\ e.lo = (IF b.lo.has THEN b.lo.b ELSE <<>>) /\ e.up = (IF b.up.has THEN b.up.b ELSE <<>>)
    [] c.op = "sparsity" -> e.ret = 0 \/ SparsityOk(w, ts[c.id], c.fn, RowsOf(w, ts[c.id], c.fn), e.out)
    [] c.op = "set" -> e.ret = (IF c.what = "mu" /\ c.mn <= 0 THEN 0 ELSE 1)
    [] c.op = "eval" -> IF RefOk(ts[c.id], c.t) THEN e.ret = 1 /\ EntriesOk(Expected(w, ts[c.id], c), e.out)
                        ELSE c.fn \in {"val", "jx"} => e.ret = 0
    [] OTHER -> TRUE
AfterSet(t, c) == CASE c.what = "mu" -> IF c.mn <= 0 THEN t ELSE [t EXCEPT !.prm = [mn |-> c.mn, md |-> c.md]]
                    [] c.what = "tol" -> [t EXCEPT !.prm.tol = c.tol]
                    [] OTHER -> [t EXCEPT !.prm = c.prm]
Step(e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> w' = [n |-> 0] /\ ts' = <<>>
    [] c.op = "world" -> w' = c /\ ts' = <<>>
    [] c.op = "term" -> w' = w /\ ts' = Append(ts, [kind |-> c.kind, foot |-> c.foot, pt |-> c.pt, prm |-> c.prm])
    [] c.op = "set" -> w' = w /\ ts' = [ts EXCEPT ![c.id] = AfterSet(@, c)]
    [] OTHER -> UNCHANGED <<w, ts>>
Explain(e) == LET c == e.cmd IN
  CASE c.op = "eval" -> <<ts[c.id], Expected(w, ts[c.id], c)>>
    [] c.op = "sparsity" -> <<ts[c.id], Cells(w, ts[c.id], c.fn) \ {<<e.out[i][1], e.out[i][2]>> : i \in 1..Len(e.out)}>>
    [] c.op = "bounds" -> <<ts[c.id], Bounds(ts[c.id])>>
    [] OTHER -> <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(e) THEN Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<w, ts, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
