SPECIFICATION Spec
CONSTANTS
 Spins = {0, 1}
 Bases = {1, 2, 3, 4}
INVARIANT Rotations R4Ok JointDerivatives Velocities BaseSpin Euler Drift ComMotion AtRest Gravity PointLoad
CHECK_DEADLOCK FALSE
