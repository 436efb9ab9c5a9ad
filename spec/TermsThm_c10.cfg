SPECIFICATION Spec
CONSTANTS
 Kinds <- PolyKinds
 Vals = {0, 3}
INVARIANT FirstDerivatives SecondDerivatives CellsAreUsed
CHECK_DEADLOCK FALSE
