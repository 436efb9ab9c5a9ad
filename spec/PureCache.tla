-------------------------------- MODULE PureCache --------------------------------
(***************************************************************************)
(* Why the terms answer as Pure demands: the protocol between a term, the  *)
(* robot object of the nearest instant which all the terms share, and the  *)
(* symbolic quantities which they share as well.                           *)
(* A question carries a state, a control and a time.  A member copies the  *)
(* arguments it uses to the buffers of its term, selects the robot object  *)
(* of the time, hands it the state and lets the shared quantities follow;  *)
(* each of these steps may be skipped when it would not change anything.   *)
(* The answer names the arguments it was computed from.                    *)
(* Copies[m]: the arguments member m copies; Selects, Hands, Follows: the  *)
(* members which take these steps.  With a member that leaves out a step   *)
(* for something it uses, TLC finds the history which shows it.            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Terms, Members, Args, Slots, Uses, Copies, Hands, Selects, Remembers
\* Uses: [Members -> SUBSET {"x", "u", "slot"}]
VARIABLES buf, cur, slot, done, last
vs == <<buf, cur, slot, done, last>>
None == 0
Init == /\ buf = [t \in Terms |-> [x |-> None, u |-> None]]
        /\ cur = [t \in Terms |-> CHOOSE s \in Slots : TRUE]
        /\ slot = [s \in Slots |-> None]
        /\ done = [t \in Terms |-> FALSE]
        /\ last = [wanted |-> <<>>, given |-> <<>>]
Ask(t, m, x, u, s) ==
  LET b == [x |-> IF "x" \in Copies[m] THEN x ELSE buf[t].x, u |-> IF "u" \in Copies[m] THEN u ELSE buf[t].u]
      c == IF m \in Selects THEN s ELSE cur[t]
      \* a step left out because the term remembers to have taken it with the same arguments
      skip == m \in Remembers /\ done[t] /\ buf[t].x = b.x
      sl == IF m \in Hands /\ ~skip THEN [slot EXCEPT ![c] = b.x] ELSE slot
      G(k) == CASE k = "x" -> b.x [] k = "u" -> b.u [] OTHER -> sl[c]
      W(k) == CASE k = "x" -> x [] k = "u" -> u [] OTHER -> x
  IN /\ buf' = [buf EXCEPT ![t] = b] /\ cur' = [cur EXCEPT ![t] = c] /\ slot' = sl /\ done' = [done EXCEPT ![t] = m \in Remembers]
     /\ last' = [wanted |-> [k \in Uses[m] |-> W(k)], given |-> [k \in Uses[m] |-> G(k)]]
Other(s, x) == slot' = [slot EXCEPT ![s] = x] /\ UNCHANGED <<buf, cur, done, last>>
Next == \/ \E t \in Terms, m \in Members, x \in Args, u \in Args, s \in Slots : Ask(t, m, x, u, s)
        \/ \E s \in Slots, x \in Args : Other(s, x)
Spec == Init /\ [][Next]_vs
Right == last.given = last.wanted
=============================================================================
