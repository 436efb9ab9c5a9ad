------------------------------ MODULE RTermsTrace ------------------------------
EXTENDS RTerms, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, ts, pat, l
Init == w = [n |-> 0] /\ ts = <<>> /\ pat = <<>> /\ l = 1
CellsOf(out) == {<<out[i][1], out[i][2]>> : i \in 1..Len(out)}
RRowsOf(t, fn) == IF fn \in {"hxx", "hxu"} THEN NX(w) ELSE IF fn = "huu" THEN NU(w) ELSE RRows(t)
RColsOf(fn) == IF fn \in {"jx", "hxx"} THEN NX(w) ELSE NU(w)
Check(e) ==
  LET c == e.cmd IN
  CASE c.op = "bounds" -> LET b == RBounds(ts[c.id]) IN e.lo = b.lo /\ e.up = b.up
    [] c.op = "sparsity" -> e.ret = 0 \/ (/\ \A s \in CellsOf(e.out) : s[1] \in 1..RRowsOf(ts[c.id], c.fn) /\ s[2] \in 1..RColsOf(c.fn)
                                          /\ c.fn \in DOMAIN pat[c.id] => pat[c.id][c.fn] = CellsOf(e.out))
    [] c.op = "probe" -> IF "nz" \in DOMAIN c
                         THEN c.fn \in DOMAIN pat[c.id] => /\ RCells(w, ts[c.id], c) \subseteq pat[c.id][c.fn]
                                                           /\ e.ret = 1 => CellsOf(e.nz) \subseteq pat[c.id][c.fn]
                         ELSE e.ret = 1 /\ ROk(RExpected(w, ts[c.id], c), e.out)
    [] OTHER -> TRUE
Step(e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> w' = [n |-> 0] /\ ts' = <<>> /\ pat' = <<>>
    [] c.op = "world" -> w' = c /\ ts' = <<>> /\ pat' = <<>>
    [] c.op = "term" -> w' = w /\ ts' = Append(ts, [kind |-> c.kind, foot |-> c.foot, pt |-> c.pt, prm |-> c.prm]) /\ pat' = Append(pat, <<>>)
    [] c.op = "sparsity" -> UNCHANGED <<w, ts>> /\ pat' = (IF e.ret = 0 THEN pat ELSE [pat EXCEPT ![c.id] = (c.fn :> CellsOf(e.out)) @@ @])
    [] OTHER -> UNCHANGED <<w, ts, pat>>
Explain(e) == LET c == e.cmd IN
  CASE c.op = "probe" -> IF "nz" \in DOMAIN c THEN <<ts[c.id], "undeclared", (RCells(w, ts[c.id], c) \cup CellsOf(e.nz)) \ pat[c.id][c.fn]>>
                         ELSE <<ts[c.id].kind, ts[c.id].prm, RExpected(w, ts[c.id], c)>>
    [] c.op = "bounds" -> <<ts[c.id], RBounds(ts[c.id])>>
    [] OTHER -> <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(e) THEN Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<w, ts, pat, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
