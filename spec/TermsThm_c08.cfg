SPECIFICATION Spec
CONSTANTS
 Kinds <- ConstraintKinds
 Vals = {0, 1, 2}
INVARIANT Cone
CHECK_DEADLOCK FALSE
