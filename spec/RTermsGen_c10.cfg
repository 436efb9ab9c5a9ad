SPECIFICATION RGenSpec
CONSTANTS
 Kinds <- RobotKinds
 Fns <- DerFns
 Ops = {}
 GenLen = 40
INVARIANT Emit
