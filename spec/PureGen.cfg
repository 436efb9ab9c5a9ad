SPECIFICATION PSpec
CONSTANTS
 PKinds <- EveryKind
 Kinds <- PolyKinds
 Fns <- AllFns
 Ops = {}
 GenLen = 60
INVARIANT Emit
