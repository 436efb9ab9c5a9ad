-------------------------------- MODULE PureTrace --------------------------------
EXTENDS Pure, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ts, known, l
Init == ts = <<>> /\ known = <<>> /\ l = 1
Asks(c) == c.op \in {"ask", "bounds", "sparsity"}
AfterSet(t, c) == CASE c.what = "mu" -> IF c.mn <= 0 THEN t ELSE [t EXCEPT !.prm = [mn |-> c.mn, md |-> c.md]]
                    [] c.what = "tol" -> [t EXCEPT !.prm.tol = c.tol]
                    [] OTHER -> [t EXCEPT !.prm = c.prm]
Check(e) == Asks(e.cmd) => e.ref[1] # -1 /\ Allowed(known, Question(ts[e.cmd.id], e.cmd), e.out, e.ref)
Step(e) ==
  LET c == e.cmd IN
  CASE c.op \in {"reset", "world"} -> ts' = <<>> /\ known' = <<>>
    [] c.op = "term" -> ts' = Append(ts, [kind |-> c.kind, foot |-> c.foot, pt |-> c.pt, prm |-> c.prm]) /\ known' = known
    [] c.op = "set" -> ts' = [ts EXCEPT ![c.id] = AfterSet(@, c)] /\ known' = known
    [] Asks(c) -> ts' = ts /\ known' = (Question(ts[c.id], c) :> e.out) @@ known
    [] OTHER -> UNCHANGED <<ts, known>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Check(e) THEN Step(e) /\ l' = l + 1
           ELSE PrintT("@@REJECTED " \o ToString(l)) /\ PrintT(<<"TERM", ts[e.cmd.id].kind>>) /\ FALSE
Spec == Init /\ [][Next]_<<ts, known, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
