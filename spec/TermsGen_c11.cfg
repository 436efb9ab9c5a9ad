SPECIFICATION GenSpec
CONSTANTS
 Kinds <- PolyKinds
 Fns <- DerFns
 Ops = {"sparsity"}
 GenLen = 60
INVARIANT Emit
