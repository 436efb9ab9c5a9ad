SPECIFICATION Spec
CONSTANTS
 Spins = {0}
 Bases = {1, 3}
INVARIANT Rotations R4Ok JointDerivatives Velocities BaseSpin Euler Drift ComMotion AtRest Gravity PointLoad
CHECK_DEADLOCK FALSE
