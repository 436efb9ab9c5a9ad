SPECIFICATION GenSpec
CONSTANTS
 Kinds = {"cost_postural"}
 Fns <- ValFns
 Ops = {"set"}
 GenLen = 60
INVARIANT Emit
