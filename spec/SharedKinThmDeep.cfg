SPECIFICATION Spec
CONSTANTS
 Spins = {0, 1}
 Bases = {1, 2, 3, 4}
INVARIANT VelIsJac MomIsJac MassSymmetric MassBase RelIsJac ComIsMom TorqueGravity TorqueSlope BaseWrench JointWrench
CHECK_DEADLOCK FALSE
