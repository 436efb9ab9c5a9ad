SPECIFICATION RGenSpec
CONSTANTS
 Kinds <- RobotKinds
 Fns <- DerFns
 Ops = {"sparsity"}
 GenLen = 40
INVARIANT Emit
