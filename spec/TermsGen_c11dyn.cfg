SPECIFICATION GenSpec
CONSTANTS
 Kinds <- DynKinds
 Fns <- DerFns
 Ops = {"sparsity"}
 GenLen = 60
INVARIANT Emit
