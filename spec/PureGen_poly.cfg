SPECIFICATION PSpec
CONSTANTS
 PKinds <- PolyKinds
 Kinds <- PolyKinds
 Fns <- AllFns
 Ops = {}
 GenLen = 60
INVARIANT Emit
