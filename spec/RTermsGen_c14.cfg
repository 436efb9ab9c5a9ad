SPECIFICATION RGenSpec
CONSTANTS
 Kinds <- RobotKinds
 Fns <- ValFns
 Ops = {"bounds"}
 GenLen = 40
INVARIANT Emit
