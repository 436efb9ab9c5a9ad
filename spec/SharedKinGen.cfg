SPECIFICATION GSpec6
CONSTANTS
 Kinds6 <- KindsAll
 ReloadEvery = 3
 Kinds <- RobotKinds
 Fns <- DerFns
 Ops = {}
 GenLen = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
