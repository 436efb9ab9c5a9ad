SPECIFICATION Spec
CONSTANTS
 Terms = {1, 2}
 Members <- AllM
 Args = {1, 2}
 Slots = {1, 2}
 Uses <- MUses
 Copies <- MCopies
 Hands <- AllM
 Selects <- AllM
 Remembers <- NoneM
INVARIANT Right
CHECK_DEADLOCK FALSE
