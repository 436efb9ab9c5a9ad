-------------------------------- MODULE ExprCache --------------------------------
(***************************************************************************)
(* The protocol by which the server of Exprs keeps its shared variables in *)
(* step with the states supplied: per instant a robot object which others  *)
(* may use as well, one copy of the state in the shared variables, an      *)
(* update skipped when nothing seems to have changed, answers computed by  *)
(* the robot object of the instant or by the variables.                    *)
(* CompareBoth: the update is skipped only if the robot object and the     *)
(* server both hold the state (comparing with the robot object alone is    *)
(* not enough).                                                            *)
(* The labels under which quantities are remembered: pairs of names are    *)
(* told apart when the length of the first one is part of the label.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS States, Slots, Servers, CompareBoth, Prefixed, Alphabet, MaxName
None == 0
VARIABLES slot, vars, given, at
vs == <<slot, vars, given, at>>
Init == /\ slot = [i \in Slots |-> None] /\ vars = [e \in Servers |-> None] /\ given = [e \in Servers |-> None] /\ at = [e \in Servers |-> CHOOSE i \in Slots : TRUE]
Same(e, i, st) == vars[e] # None /\ slot[i] = st /\ (CompareBoth => vars[e] = st)
Supply(e, i, st) ==
  /\ at' = [at EXCEPT ![e] = i] /\ given' = [given EXCEPT ![e] = st]
  /\ IF Same(e, i, st) THEN UNCHANGED <<slot, vars>>
     ELSE slot' = [slot EXCEPT ![i] = st] /\ vars' = [vars EXCEPT ![e] = st]
Pick(e, i) ==   \* take the state found in the robot object of the instant
  /\ slot[i] # None
  /\ at' = [at EXCEPT ![e] = i] /\ given' = [given EXCEPT ![e] = slot[i]] /\ vars' = [vars EXCEPT ![e] = slot[i]]
  /\ UNCHANGED slot
Other(i, st) == slot' = [slot EXCEPT ![i] = st] /\ UNCHANGED <<vars, given, at>>
Evaluate(e) == vars[e] # None /\ slot' = [slot EXCEPT ![at[e]] = vars[e]] /\ UNCHANGED <<vars, given, at>>
Next == \/ \E e \in Servers, i \in Slots, st \in States : Supply(e, i, st)
        \/ \E e \in Servers, i \in Slots : Pick(e, i)
        \/ \E i \in Slots, st \in States : Other(i, st)
        \/ \E e \in Servers : Evaluate(e)
Spec == Init /\ [][Next]_vs
\* what is evaluated is the state supplied last
Right == \A e \in Servers : vars[e] = given[e]
NamesUpTo(n) == UNION {[1..k -> Alphabet] : k \in 1..n}
Label(a, b) == IF Prefixed THEN <<Len(a)>> \o a \o b ELSE a \o b
NeverConfused == \A a, b, c, d \in NamesUpTo(MaxName) : Label(a, b) = Label(c, d) => a = c /\ b = d
ASSUME NeverConfused
=============================================================================
