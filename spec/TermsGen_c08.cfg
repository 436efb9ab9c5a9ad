SPECIFICATION GenSpec
CONSTANTS
 Kinds <- ConstraintKinds
 Fns <- ValFns
 Ops = {"bounds", "set"}
 GenLen = 60
INVARIANT Emit
