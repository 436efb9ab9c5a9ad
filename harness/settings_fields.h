// field tables of the settings harness (names as in SettingsStruct)
#pragma once
#define NUM_FIELDS(X) X(minimumDt) X(maximumDt) X(controlPeriod) X(horizon) X(complementarityDissipation) X(frictionCoefficient) X(minimumFeetDistance) X(comPositionConstraintTolerance) X(centroidalMomentumConstraintTolerance) X(quaternionModulusConstraintTolerance) X(pointPositionConstraintTolerance) X(minimumCoMHeight) X(maximumAngularMomentum) X(feetMaximumRelativeHeight) X(activeControlPercentage) X(indexOfLateralDirection) X(dynamicComplementarityUpperBound) X(classicalComplementarityTolerance) X(classicalPlanarComplementarityTolerance) X(planarVelocityHyperbolicTangentScaling) X(desiredSwingHeight) X(updateTolerance) X(normalForceDissipationRatio) X(normalForceHyperbolicSecantScaling) X(normalVelocityHyperbolicSecantScaling) X(comCostOverallWeight) X(comVelocityCostOverallWeight) X(frameCostOverallWeight) X(forceMeanCostOverallWeight) X(forceRatioCostOverallWeight) X(jointsRegularizationCostOverallWeight) X(jointsVelocityCostOverallWeight) X(staticTorquesCostOverallWeight) X(forceDerivativesCostOverallWeight) X(pointAccelerationCostOverallWeight) X(swingCostOverallWeight) X(phantomForcesCostOverallWeight) X(meanPointPositionCostOverallWeight) X(leftFootYawCostOverallWeight) X(rightFootYawCostOverallWeight) X(feetDistanceCostOverallWeight) X(jointsVelocityForPosturalCostOverallWeight) X(complementarityCostOverallWeight) X(basePositionCostOverallWeight) X(baseQuaternionCostOverallWeight) X(frameAngularVelocityCostOverallWeight) X(rotationalPIDgain) X(baseLinearVelocityCostOverallWeight) X(baseQuaternionVelocityCostOverallWeight) X(angularMomentumCostOverallWeight) X(constraintsHessianRegularization) X(costsHessianRegularization)
#define FLAG_FIELDS(X) X(constrainTargetCoMPosition) X(comCostActive) X(comVelocityCostActive) X(frameCostActive) X(forceMeanCostActive) X(forceRatioCostActive) X(jointsRegularizationCostActive) X(jointsVelocityCostActive) X(staticTorquesCostActive) X(forceDerivativeCostActive) X(pointAccelerationCostActive) X(swingCostActive) X(phantomForcesCostActive) X(meanPointPositionCostActive) X(leftFootYawCostActive) X(rightFootYawCostActive) X(feetDistanceCostActive) X(jointsVelocityForPosturalCostActive) X(complementarityCostActive) X(basePositionCostActive) X(baseQuaternionCostActive) X(frameAngularVelocityCostActive) X(baseLinearVelocityCostActive) X(baseQuaternionVelocityCostActive) X(angularMomentumCostActive) X(useConstraintsHessianRegularization) X(useCostsHessianRegularization)
#define REF_FIELDS(X) X(targetCoMPositionTolerance,Double) X(desiredCoMTrajectory,Vector) X(desiredCoMVelocityTrajectory,Vector) X(desiredRotationTrajectory,Rotation) X(frameCostTimeVaryingWeight,Double) X(desiredJointsTrajectory,Vector) X(desiredJointsVelocityTrajectory,Vector) X(desiredForceDerivativeTrajectory,Vector) X(desiredPointAccelerationTrajectory,Vector) X(meanPointPositionCostTimeVaryingWeight,Vector) X(desiredMeanPointPosition,Position) X(desiredLeftFootYaw,Double) X(desiredRightFootYaw,Double) X(desiredBasePositionTrajectory,Vector) X(desiredBaseQuaternionTrajectory,Vector) X(desiredBaseLinearVelocityTrajectory,Vector) X(desiredBaseQuaternionVelocityTrajectory,Vector)
#define WEIGHT_FIELDS(X) X(comWeights) X(comVelocityWeights) X(jointsRegularizationWeights) X(jointsVelocityCostWeights) X(staticTorquesCostWeights) X(forceDerivativeWeights) X(pointAccelerationWeights) X(basePositionCostWeights) X(baseLinearVelocityCostWeights)
#define FRAME_FIELDS(X) X(floatingBaseName) X(leftFrameName) X(rightFrameName) X(referenceFrameNameForFeetDistance) X(otherFrameNameForFeetDistance) X(frameForOrientationCost)
#define VEC_FIELDS(X) X(gravity) X(forceMaximumDerivative) X(velocityMaximumDerivative) X(swingCostWeights)
