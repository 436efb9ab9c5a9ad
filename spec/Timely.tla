------------------------------- MODULE Timely -------------------------------
(***************************************************************************)
(* Property C05: data associated with a time is served by the nearest      *)
(* configured instant.  Times are integers (sixteenths of a second).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Dist(list, i, t) == Abs(list[i] - t)
\* the set of instants at minimal distance: one, or two in case of a tie
Nearest(list, t) == { i \in 1..Len(list) : \A j \in 1..Len(list) : Dist(list, i, t) <= Dist(list, j, t) }
Sorted(list) == \A i, j \in 1..Len(list) : i < j => list[i] < list[j]

(***************************************************************************)
(* The search as it is implemented: corner cases, a remembered cursor, a   *)
(* binary search.  Checked to refine Nearest, whatever the cursor.         *)
(***************************************************************************)
RECURSIVE Bisect(_, _, _, _)
Bisect(list, t, i, j) ==   \* 0-based half-open [i, j)
  LET mid == (i + j) \div 2
      A(k) == list[k + 1]
  IN IF i >= j THEN mid
     ELSE IF t = A(mid) THEN mid
     ELSE IF t < A(mid)
          THEN IF t > A(mid - 1) THEN (IF t - A(mid - 1) >= A(mid) - t THEN mid ELSE mid - 1)
               ELSE Bisect(list, t, i, mid)
          ELSE IF t < A(mid + 1) THEN (IF t - A(mid) >= A(mid + 1) - t THEN mid + 1 ELSE mid)
               ELSE Bisect(list, t, mid + 1, j)
Search(list, t, cursor) ==
  LET n == Len(list) IN
  IF t <= list[1] THEN 0
  ELSE IF t >= list[n] THEN n - 1
  ELSE IF t = list[cursor + 1] THEN cursor
  ELSE IF cursor + 1 < n /\ t = list[cursor + 2] THEN cursor + 1
  ELSE Bisect(list, t, 0, n)
SearchIsNearest(list, t, cursor) == (Search(list, t, cursor) + 1) \in Nearest(list, t)
CursorIrrelevant(list, t) == \A c, d \in 0..(Len(list) - 1) : Search(list, t, c) = Search(list, t, d)

(***************************************************************************)
(* Observable state: list of instants and which object serves which        *)
(* instant (0: not seen yet).  A tie is served by the later instant.       *)
(***************************************************************************)
InitSt == [loaded |-> FALSE, list |-> <<>>, obj |-> <<>>, tmpl |-> 0]
Serving(list, t) == CHOOSE i \in Nearest(list, t) : \A j \in Nearest(list, t) : j <= i
TieGoesLater(list, t, cursor) == Search(list, t, cursor) + 1 = Serving(list, t)

\* get: the object id is observed, the specification says whether it may be that one
GetOk(s, t, id) ==
  IF s.list = <<>> THEN s.tmpl \in {0, id}
  ELSE LET i == Serving(s.list, t) IN
       \/ s.obj[i] = id
       \/ s.obj[i] = 0 /\ \A j \in 1..Len(s.obj) : s.obj[j] # id
GetStep(s, t, id) ==
  IF s.list = <<>> THEN [s EXCEPT !.tmpl = id] ELSE [s EXCEPT !.obj[Serving(s.list, t)] = id]
SetOk(s, list, ret) == ret = (IF s.loaded /\ list # <<>> THEN 1 ELSE 0)
SetStep(s, list) == IF s.loaded /\ list # <<>>
                    THEN [s EXCEPT !.list = list, !.obj = [i \in 1..Len(list) |-> 0]]
                    ELSE s
=============================================================================
