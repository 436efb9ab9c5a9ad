------------------------------ MODULE Labeller ------------------------------
(***************************************************************************)
(* Property C04: labels of optimisation variables own disjoint contiguous  *)
(* index ranges.                                                           *)
(*                                                                         *)
(* State: the ordered list of accepted labels with their sizes, and the    *)
(* flat vector of values.  Everything else (ranges, total size, number of  *)
(* labels) is derived, so the specification cannot be inconsistent with    *)
(* itself.  One action per public call of the implementation.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Labels,      \* universe of label names (known and unknown to the labeller)
          MaxSize      \* bound on the size of one label used when exploring

InitSt == [list |-> <<>>, dim |-> [x \in {} |-> 0], val |-> <<>>]

Known(s, n)  == \E i \in 1..Len(s.list) : s.list[i] = n
Dim(s, n)    == s.dim[n]
RECURSIVE SumDims(_, _)
SumDims(s, k) == IF k = 0 THEN 0 ELSE SumDims(s, k - 1) + s.dim[s.list[k]]
PosOf(s, n)  == CHOOSE i \in 1..Len(s.list) : s.list[i] = n
Offset(s, n) == SumDims(s, PosOf(s, n) - 1)
Total(s)     == SumDims(s, Len(s.list))
RangeOf(s, n)  == IF Known(s, n) THEN <<Offset(s, n), Dim(s, n)>> ELSE <<-1, -1>>
ValuesOf(s, n) == IF Known(s, n) THEN SubSeq(s.val, Offset(s, n) + 1, Offset(s, n) + Dim(s, n)) ELSE <<>>
Zeros(k) == [i \in 1..k |-> 0]

(***************************** actions ************************************)
Add(s, n, d) == IF Known(s, n) THEN s
                ELSE [list |-> Append(s.list, n),
                      dim  |-> [x \in DOMAIN s.dim \cup {n} |-> IF x = n THEN d ELSE s.dim[x]],
                      val  |-> s.val \o Zeros(d)]
Assign(s, base) == [s EXCEPT !.val = [i \in 1..Len(s.val) |-> base + i]]
Zero(s)         == [s EXCEPT !.val = Zeros(Len(s.val))]
Poke(s, i, v)   == IF i < Len(s.val) THEN [s EXCEPT !.val[i + 1] = v] ELSE s
PokeLabel(s, n, k, v) == IF Known(s, n) /\ k < Dim(s, n)
                         THEN [s EXCEPT !.val[Offset(s, n) + k + 1] = v] ELSE s

Step(s, c) ==
  CASE c.op = "reset" -> InitSt
    [] c.op = "clear" -> InitSt
    [] c.op \in {"add", "addget"} -> Add(s, c.name, c.dim)
    [] c.op = "assign" -> Assign(s, c.base)
    [] c.op = "zero" -> Zero(s)
    [] c.op = "poke" -> Poke(s, c.i, c.v)
    [] c.op = "pokelabel" -> PokeLabel(s, c.name, c.k, c.v)
    [] OTHER -> s

\* what the call itself returns
Ret(s, c) ==
  CASE c.op = "add"    -> IF Known(s, c.name) THEN 0 ELSE 1
    [] c.op = "addget" -> IF Known(s, c.name) THEN -1 ELSE Total(s)
    [] OTHER -> 1

\* what every lookup must return afterwards
Obs(s, U) == [size |-> Total(s), n |-> Len(s.list), list |-> s.list, values |-> s.val,
              ranges |-> [i \in 1..Len(U) |-> RangeOf(s, U[i])],
              byrange |-> [i \in 1..Len(U) |-> ValuesOf(s, U[i])],
              bylabel |-> [i \in 1..Len(U) |-> ValuesOf(s, U[i])],
              constlabel |-> [i \in 1..Len(U) |-> ValuesOf(s, U[i])],
              byindex |-> s.val]

(***************************** properties *********************************)
Cells(s, n) == LET r == RangeOf(s, n) IN { k \in 0..(Total(s) - 1) : r[1] <= k /\ k < r[1] + r[2] }
Disjoint(s)   == \A a, b \in Labels : a # b => Cells(s, a) \cap Cells(s, b) = {}
Covering(s)   == UNION { Cells(s, a) : a \in Labels } = 0..(Total(s) - 1)
Ordered(s)    == \A i, j \in 1..Len(s.list) : i < j => Offset(s, s.list[i]) + Dim(s, s.list[i]) <= Offset(s, s.list[j])
UniqueNames(s) == \A i, j \in 1..Len(s.list) : s.list[i] = s.list[j] => i = j
SizeAgrees(s) == Len(s.val) = Total(s)
Inv(s) == Disjoint(s) /\ Covering(s) /\ Ordered(s) /\ UniqueNames(s) /\ SizeAgrees(s)
=============================================================================
