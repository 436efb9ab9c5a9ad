SPECIFICATION GSpec7
CONSTANTS
 Len7 = 48
 Kinds <- RobotKinds
 Fns <- DerFns
 Ops = {}
 GenLen = 60
INVARIANT Emit7
CHECK_DEADLOCK FALSE
