SPECIFICATION GenSpec
CONSTANTS
 Kinds <- DynKinds
 Fns <- DerFns
 Ops = {}
 GenLen = 60
INVARIANT Emit
