SPECIFICATION GenSpec
CONSTANTS
 Kinds <- CostKinds
 Fns <- ValFns
 Ops = {"set"}
 GenLen = 60
INVARIANT Emit
