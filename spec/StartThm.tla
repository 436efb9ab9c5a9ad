--------------------------------- MODULE StartThm ---------------------------------
(***************************************************************************)
(* Design of the initial states.                                           *)
(*  - sharing the weight in inverse proportion to the lateral distances    *)
(*    balances the robot about the forward axis whenever the centre of     *)
(*    mass is between the feet;                                            *)
(*  - the search for the ground (lower by 99/100 of the lowest height, at  *)
(*    most of Cap; a little more than needed when coming from below) ends  *)
(*    with the lowest point in 0..Eps, from every height and with every    *)
(*    rounding of a step by up to Rnd.                                     *)
(* Heights in units far below Eps.                                         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Top, Cap, Eps, Rnd, Side
VARIABLES h, go, y
vars == <<h, go, y>>
Done(k) == 0 <= k /\ k <= Eps
Lower(k) == k - (99 * (IF k > Cap THEN Cap ELSE k)) \div 100 + (IF k < 0 THEN Eps ELSE 0)
Init == h = 0 /\ go = FALSE /\ y = <<0, 0>>
Pick == ~go /\ y = <<0, 0>> /\ \E k \in -Top..Top : h' = k /\ go' = TRUE /\ UNCHANGED y
Move == go /\ ~Done(h) /\ \E r \in -Rnd..Rnd : h' = Lower(h) + r /\ UNCHANGED <<go, y>>
Feet == ~go /\ y = <<0, 0>> /\ \E c \in -Side..Side, r \in -Side..Side : y' = <<c, r>> /\ UNCHANGED <<h, go>>
Spec == Init /\ [][Pick \/ Move \/ Feet]_vars /\ WF_vars(Move)
Lands == [](go => <>Done(h))
Abs(a) == IF a < 0 THEN -a ELSE a
\* left foot at 0, right foot at y[2], centre of mass at y[1]; shares over dl + dr
Balanced == LET dl == Abs(y[1])  dr == Abs(y[1] - y[2]) IN
  /\ (dl + dr = Abs(y[2]) => dr * (0 - y[1]) + dl * (y[2] - y[1]) = 0)
  /\ (dl + dr = 0 <=> y = <<0, 0>>)
=============================================================================
