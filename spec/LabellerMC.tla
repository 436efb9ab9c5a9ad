---------------------------- MODULE LabellerMC ----------------------------
(* Exhaustive check of Labeller with small constants, and the generator of  *)
(* call sequences replayed into the implementation.                         *)
EXTENDS Labeller, TLC, Json
CONSTANT GenLen
VARIABLES st, hist
vars == <<st, hist>>

Cmds(s) == {[op |-> o, name |-> n, dim |-> d] : o \in {"add", "addget"}, n \in Labels, d \in 0..MaxSize}
      \cup {[op |-> "clear"], [op |-> "zero"]}
      \cup {[op |-> "assign", base |-> b] : b \in {10}}
      \cup {[op |-> "poke", i |-> i, v |-> 7] : i \in 0..(Total(s) - 1)}
      \cup {[op |-> "pokelabel", name |-> n, k |-> k, v |-> 9] : n \in {m \in Labels : Known(s, m)}, k \in 0..(MaxSize - 1)}

Init == st = InitSt /\ hist = <<>>
Next == \E c \in Cmds(st) : st' = Step(st, c) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
TypeInv == Inv(st)
\* a rejected insertion changes nothing; accepted ones only append: earlier ranges never move
AppendOnly == [][ \A n \in Labels : (Known(st, n) /\ st'.list # <<>>) => (Known(st', n) => RangeOf(st', n) = RangeOf(st, n)) ]_st
Small == Len(st.list) <= 3 /\ Total(st) <= 3 /\ \A i \in 1..Len(st.val) : st.val[i] \in 0..20
Big == Len(st.list) <= 3 /\ Total(st) <= 5 /\ \A i \in 1..Len(st.val) : st.val[i] \in 0..20

\* ----------------------------------------------------------- generator
\* kind k of command; sets of candidates, one of which is drawn at random
Cands(s, k) ==
  CASE k \in 1..9 -> [op : {"add", "addget"}, name : Labels, dim : 0..MaxSize]
    [] k \in 10..11 -> [op : {"assign"}, base : 1..1000]
    [] k \in 12..14 /\ Total(s) > 0 -> [op : {"poke"}, i : 0..(Total(s) - 1), v : -99..99]
    [] k \in 15..17 /\ (\E n \in Labels : Known(s, n) /\ Dim(s, n) > 0) ->
         UNION { [op : {"pokelabel"}, name : {n}, k : 0..(Dim(s, n) - 1), v : -99..99] :
                 n \in {m \in Labels : Known(s, m) /\ Dim(s, m) > 0} }
    [] k = 18 -> {[op |-> "zero"]}
    [] k = 19 /\ Len(s.list) > 4 -> {[op |-> "clear"]}
    [] OTHER -> [op : {"addget"}, name : Labels, dim : 0..MaxSize]
GenNext == /\ Len(hist) < GenLen
           /\ \E k \in {RandomElement(1..20)} : \E c \in {RandomElement(Cands(st, k))} :
             st' = Step(st, c) /\ hist' = Append(hist, c)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT("@@" \o ToJson(hist))
=============================================================================
