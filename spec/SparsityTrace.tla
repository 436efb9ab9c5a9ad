---------------------------- MODULE SparsityTrace ----------------------------
(* Property C11: a declared pattern covers every cell that can be nonzero, lies inside the matrix, never changes,
   and contains every cell which an answer of the same term leaves nonzero. *)
EXTENDS Terms, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, ts, pat, l
Init == w = [n |-> 0] /\ ts = <<>> /\ pat = <<>> /\ l = 1
CellsOf(out) == {<<out[i][1], out[i][2]>> : i \in 1..Len(out)}
Check(e) ==
  LET c == e.cmd IN
  CASE c.op = "sparsity" -> e.ret = 0 \/ (/\ SparsityOk(w, ts[c.id], c.fn, RowsOf(w, ts[c.id], c.fn), e.out)
                                          /\ c.fn \in DOMAIN pat[c.id] => pat[c.id][c.fn] = CellsOf(e.out))
    [] c.op = "eval" -> e.ret = 0 \/ (c.fn \in DOMAIN pat[c.id] => CellsOf(e.out) \subseteq pat[c.id][c.fn])
    [] OTHER -> TRUE
Step(e) ==
  LET c == e.cmd IN
  CASE c.op = "reset" -> w' = [n |-> 0] /\ ts' = <<>> /\ pat' = <<>>
    [] c.op = "world" -> w' = c /\ ts' = <<>> /\ pat' = <<>>
    [] c.op = "term" -> w' = w /\ ts' = Append(ts, [kind |-> c.kind, foot |-> c.foot, pt |-> c.pt, prm |-> c.prm]) /\ pat' = Append(pat, <<>>)
    [] c.op = "sparsity" -> UNCHANGED <<w, ts>> /\ pat' = (IF e.ret = 0 THEN pat ELSE [pat EXCEPT ![c.id] = (c.fn :> CellsOf(e.out)) @@ @])
    [] OTHER -> UNCHANGED <<w, ts, pat>>
Explain(e) == LET c == e.cmd IN
  CASE c.op = "sparsity" -> <<ts[c.id], "missing", Cells(w, ts[c.id], c.fn) \ CellsOf(e.out)>>
    [] c.op = "eval" -> <<ts[c.id], "undeclared", CellsOf(e.out) \ pat[c.id][c.fn]>>
    [] OTHER -> <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(e) THEN Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"EXPECTED", Explain(e)>>) /\ FALSE
Spec == Init /\ [][Next]_<<w, ts, pat, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
