SPECIFICATION Spec
CONSTANTS
 Kinds <- DynKinds
 Vals = {0}
INVARIANT NoCoupling Balance
CHECK_DEADLOCK FALSE
