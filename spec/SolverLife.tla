------------------------------ MODULE SolverLife ------------------------------
(* C15 checked exhaustively on a small alphabet of calls *)
EXTENDS Solver
CONSTANT Times
VARIABLES st, solved, last
vars == <<st, solved, last>>
Sizes == {<<1, 1>>, <<2, 1>>}
XVec(n, nj, v) == [i \in 1..DimX(n, nj) |-> IF i \in (QOff(n) + 1)..(QOff(n) + 4) THEN IF i = QOff(n) + 1 THEN 1 ELSE 0 ELSE v]
Cmds == [op : {"spec"}, n : {1, 2}, nj : {1}, refuse : {0, 1}, cid : {1, 2}]
        \cup [op : {"bad", "reset"}]
        \cup {[op |-> "init", n |-> d[1], nj |-> d[2], x |-> XVec(d[1], d[2], 1), t |-> t] : d \in Sizes, t \in Times}
        \cup [op : {"guess"}, n : {1, 2}, nj : {1}, kind : {"ok", "bad", "null_s"}]
        \cup [op : {"opt"}, id : {0, 1, 2}, refuse : {0, 1}]
        \cup [op : {"integ"}, null : {0, 1}]
        \cup [op : {"solve"}, out : {"ok", "fail", "noprimal"}]
Init == st = InitSt /\ solved = FALSE /\ last = <<None, FALSE>>
Next == \E c \in Cmds : \E r \in Rets(st, c) :
          /\ st' = Step(st, c, r) /\ last' = <<c, r>>
          /\ solved' = CASE c.op = "solve" -> solved \/ r [] c.op = "reset" -> FALSE [] c.op = "spec" -> solved /\ ~r [] OTHER -> solved
Spec == Init /\ [][Next]_vars
TypeOK == st.prep \in BOOLEAN /\ st.opt \in 0..2 /\ st.fresh \in {"first", "later", "either"} /\ Len(st.pend) <= 1
\* a configured problem always has an initial state of its size
HasInit == st.prep => st.init.n = st.cfg.n /\ st.init.nj = st.cfg.nj /\ Len(st.init.x) = DimX(st.init.n, st.init.nj)
\* the optimizer continues only from a solution of the problem it is handed
Continues == st.fresh # "first" => solved
\* a solution needs a configured problem and an optimizer
NoPartial == last[2] /\ last[1].op = "solve" => st.prep /\ st.opt # 0 /\ st.pend = <<>>
\* a refused call, but for the settings, leaves everything as it was
Refused == [][~last'[2] /\ last'[1].op # "spec" => st' = st]_vars
\* settings which were refused never leave the previous problem in charge
NotOld == [][last'[1].op = "spec" => st'.prep = last'[2] /\ (last'[2] => st'.cfg = last'[1] /\ st'.fresh = "first")]_vars
\* a guess stays until it was used by a successful solve
GuessKept == [][st.pend # <<>> /\ st'.pend # st.pend => \/ last'[1].op = "solve" /\ last'[2]
                                                       \/ last'[1].op \in {"guess", "reset"}]_vars
================================================================================
