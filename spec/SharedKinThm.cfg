SPECIFICATION Spec
CONSTANTS
 Spins = {0}
 Bases = {3}
INVARIANT VelIsJac MomIsJac MassSymmetric MassBase RelIsJac ComIsMom TorqueGravity TorqueSlope BaseWrench JointWrench
CHECK_DEADLOCK FALSE
