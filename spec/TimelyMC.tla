------------------------------ MODULE TimelyMC ------------------------------
EXTENDS Timely, TLC, Json, SequencesExt
CONSTANTS MaxT, GenLen, GenMax
VARIABLES list, t, cursor, hist
vars == <<list, t, cursor, hist>>

\* --- exhaustive: every sorted list over 0..MaxT (even), every request time, every cursor
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Lists == { SortedSeq(S) : S \in (SUBSET {2 * k : k \in 0..MaxT}) \ {{}} }
Init == list \in Lists /\ t = 0 /\ cursor = 0 /\ hist = <<>>
Next == \E u \in -1..(2 * MaxT + 1) : t' = u /\ cursor' = Search(list, u, cursor) /\ UNCHANGED <<list, hist>>
Spec == Init /\ [][Next]_vars
CursorInRange == cursor \in 0..(Len(list) - 1)
ServesNearest == \A u \in -1..(2 * MaxT + 1) : SearchIsNearest(list, u, cursor)
Ties == \A u \in -1..(2 * MaxT + 1) : TieGoesLater(list, u, cursor)
NoMemory == \A u \in -1..(2 * MaxT + 1) : CursorIrrelevant(list, u)

\* --- generator of call sequences
SomeList == \E S \in {RandomElement((SUBSET {2 * k : k \in 0..GenMax}) \ {{}})} :
              hist' = Append(hist, [op |-> "set", list |-> SortedSeq(S)])
GenNext == /\ UNCHANGED <<list, t, cursor>>
           /\ \E k \in {RandomElement(1..12)} :
              CASE hist = <<>> /\ k < 11 -> hist' = Append(hist, [op |-> "load"])
                [] k = 1 -> SomeList
                [] k = 2 /\ Len(hist) > 10 -> hist' = Append(hist, [op |-> "set", list |-> <<>>])
                [] OTHER -> \E u \in {RandomElement(-3..(2 * GenMax + 3))} : hist' = Append(hist, [op |-> "get", t |-> u])
GenSpec == (list = <<0>> /\ t = 0 /\ cursor = 0 /\ hist = <<>>) /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
