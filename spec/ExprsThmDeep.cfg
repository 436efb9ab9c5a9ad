SPECIFICATION Spec
CONSTANTS
 Spins = {0}
 Bases = {3}
INVARIANT AdjInverse AdjChain AdjDual RelVelIsRelJac AbsIsVel MomIsMom AbsSlope CrbiIsMass CrbiIsSum MomIsCrbi Slopes RankOne MotionSubspace
CHECK_DEADLOCK FALSE
