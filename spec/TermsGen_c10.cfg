SPECIFICATION GenSpec
CONSTANTS
 Kinds <- PolyKinds
 Fns <- DerFns
 Ops = {"set"}
 GenLen = 60
INVARIANT Emit
