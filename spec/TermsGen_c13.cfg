SPECIFICATION GenSpec
CONSTANTS
 Kinds <- DynKinds
 Fns <- ValFns
 Ops = {}
 GenLen = 60
INVARIANT Emit
