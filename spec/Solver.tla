--------------------------------- MODULE Solver ---------------------------------
(***************************************************************************)
(* Properties C15, C18 (with the problem of module Problem, C16 and C17):  *)
(* the life of a solver.                                                   *)
(*   prep   a problem is configured        cfg    the settings it stands for*)
(*   opt    the optimizer in charge, 0: none of ours                       *)
(*   init   the initial state [n, nj, x, t]; n = 0: none was ever set      *)
(*   pend   the guess to be handed over, <<>>: none                        *)
(*   fresh  "first": the problem was never solved, "later": the optimizer  *)
(*          continues from its previous solution, "either": another        *)
(*          optimizer took over in between                                 *)
(***************************************************************************)
EXTENDS Problem
None == [none |-> TRUE]
ZeroX(n, nj) == [i \in 1..DimX(n, nj) |-> IF i = QOff(n) + 1 THEN 1 ELSE 0]
ZeroU(n, nj) == [i \in 1..DimU(n, nj) |-> 0]
InitSt == [prep |-> FALSE, cfg |-> None, opt |-> 0, init |-> [n |-> 0, nj |-> 0, x |-> <<>>, t |-> 0], pend |-> <<>>, fresh |-> "first"]
FitInit(st, n, nj) == IF st.init.n = n /\ st.init.nj = nj THEN st.init ELSE [n |-> n, nj |-> nj, x |-> ZeroX(n, nj), t |-> 0]

SpecOk(st, c) == ~(c.refuse = 1 /\ st.opt # 0)
InitOk(st, c) == st.prep /\ c.n = st.init.n /\ c.nj = st.init.nj
GuessOk(st, c) == st.prep /\ c.kind \in {"ok", "bad"}
OptOk(st, c) == c.id # 0 /\ ~(st.prep /\ c.refuse = 1)
SolveOk(st, c) == st.prep /\ st.opt # 0 /\ c.out = "ok"
\* the possible answers of a call
Rets(st, c) ==
  CASE c.op = "spec" -> {SpecOk(st, c)}
    [] c.op = "bad" -> {FALSE}
    [] c.op = "init" -> {InitOk(st, c)}
    [] c.op = "guess" -> {GuessOk(st, c)}
    [] c.op = "opt" -> {OptOk(st, c)}
    [] c.op = "integ" -> IF c.null = 1 THEN {FALSE} ELSE IF st.prep THEN BOOLEAN ELSE {TRUE}
    [] c.op = "solve" -> {SolveOk(st, c)}
    [] OTHER -> {TRUE}
Step(st, c, ret) ==
  CASE c.op = "reset" -> InitSt
    [] c.op = "spec" -> IF ret THEN [st EXCEPT !.prep = TRUE, !.cfg = c, !.init = FitInit(st, c.n, c.nj), !.fresh = "first"]
                        ELSE [st EXCEPT !.prep = FALSE, !.init = FitInit(st, c.n, c.nj)]
    [] c.op = "init" -> IF ret THEN [st EXCEPT !.init = [n |-> c.n, nj |-> c.nj, x |-> c.x, t |-> c.t]] ELSE st
    [] c.op = "guess" -> IF ret THEN [st EXCEPT !.pend = <<c>>] ELSE st
    [] c.op = "opt" -> IF ret THEN [st EXCEPT !.opt = c.id, !.fresh = IF @ = "later" THEN "either" ELSE @] ELSE st
    [] c.op = "solve" -> IF ret THEN [st EXCEPT !.pend = <<>>, !.fresh = "later"] ELSE st
    [] OTHER -> st

\* ------------------------------------------------------------- what the optimizer is handed
MeshesOf(st) == Meshes(st.cfg, st.init.t)
NVar(st) == LET ms == MeshesOf(st) IN Len(ms) * DimX(st.cfg.n, st.cfg.nj) + Cardinality({i \in 1..Len(ms) : ms[i].k = "C"}) * DimU(st.cfg.n, st.cfg.nj)
PlusTick(c, t) == [i \in 1..Len(c.x) |-> IF i \in (QOff(c.n) + 1)..(QOff(c.n) + 4) THEN c.x[i] ELSE c.x[i] + t]
\* mesh i of the guess: the set of admissible state parts, and the control part
GuessAt(st, g, ms, i) ==
  [x |-> Written(g.n, IF i = 1 THEN st.init.x ELSE PlusTick(g, ms[i].t)),
   u |-> IF ms[i].k = "C" THEN [k \in 1..Len(g.u) |-> g.u[k] + ms[i].t] ELSE <<>>]
DefaultAt(st, ms, i) == [x |-> Written(st.init.n, st.init.x), u |-> IF ms[i].k = "C" THEN ZeroU(st.cfg.n, st.cfg.nj) ELSE <<>>]
Matches(st, ms, At(_), got) ==
  LET d == DimX(st.cfg.n, st.cfg.nj) IN
  Len(got) = Len(ms) /\ \A i \in 1..Len(ms) : SubSeq(got[i], 1, d) \in At(i).x /\ SubSeq(got[i], d + 1, Len(got[i])) = At(i).u
IsDefault(st, got) == LET ms == MeshesOf(st) IN Matches(st, ms, LAMBDA i : DefaultAt(st, ms, i), got)
\* a guess which has no value at an instant it is asked for is no guess
Usable(st, g) == /\ g.n = st.cfg.n /\ g.nj = st.cfg.nj
                 /\ g.kind = "bad" => LET ms == MeshesOf(st) IN \A i \in 1..Len(ms) : ms[i].t # g.at \/ (i = 1 /\ FALSE)
GuessFits(st, got) ==
  IF st.pend # <<>>
  THEN LET g == st.pend[1]  ms == MeshesOf(st) IN
       IF Usable(st, g) THEN Matches(st, ms, LAMBDA i : GuessAt(st, g, ms, i), got) ELSE got = <<>> \/ IsDefault(st, got)
  ELSE CASE st.fresh = "first" -> IsDefault(st, got)
         [] st.fresh = "later" -> got = <<>>
         [] OTHER -> got = <<>> \/ IsDefault(st, got)

\* ------------------------------------------------------------- the plan made of a solution
QRot(q) == LET m == Quad(q, q)  n == Norm4(q) IN FlattenSeq([r \in 1..3 |-> [k \in 1..3 |-> m[r][k] \div n]])
PlanOk(st, p, e) ==
  LET ms == MeshesOf(st)  n == st.cfg.n
      cs == SelectSeq([i \in 1..Len(ms) |-> i], LAMBDA i : ms[i].k = "C")
  IN /\ Len(e.x) = Len(ms) - 1 /\ Len(e.R) = Len(e.x) /\ Len(e.tx) = Len(e.x)
     /\ \A i \in 1..Len(e.x) : /\ e.x[i] = WithQuat(n, p.x[i + 1], <<0, 0, 0, 0>>)
                               /\ e.R[i] = QRot(QOf(n, p.x[i + 1]))
                               /\ e.tx[i] = ms[i + 1].t
     /\ Len(e.u) = Len(cs) /\ Len(e.tu) = Len(cs)
     /\ \A i \in 1..Len(cs) : e.u[i] = p.u[cs[i]] /\ e.tu[i] = ms[cs[i]].t
\* the sign which the quaternion of the initial state took, in the units of the specification
SeenQ0(st, e) == LET o == SubSeq(e.lo[1], QOff(st.cfg.n) + 1, QOff(st.cfg.n) + 4) IN
                 IF Norm4(QOf(st.cfg.n, st.init.x)) = 1 THEN <<o[1] \div 2, o[2] \div 2, o[3] \div 2, o[4] \div 2>> ELSE o
=============================================================================
