------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Property C19: when a settings record is accepted.  A record is          *)
(*  n : numbers (eighths)         b : switches (0/1)                       *)
(*  p : references (0 = missing, otherwise an identity)                    *)
(*  w : weight vectors            s : frame names: 0 unknown, 1..4 links,  *)
(*                                    5 a frame that is not a link         *)
(*  e : kinds of complementarity  x : 3-vectors                            *)
(*  q, qd : joint and joint velocity limits, pairs                         *)
(*  pl, pr : contact points, rl, rr : force ratios   dofs : of the model   *)
(***************************************************************************)
EXTENDS Integers, Sequences
NonNeg == {"minimumDt", "maximumDt", "controlPeriod", "horizon", "complementarityDissipation", "frictionCoefficient", "minimumFeetDistance",
           "comPositionConstraintTolerance", "centroidalMomentumConstraintTolerance", "quaternionModulusConstraintTolerance",
           "pointPositionConstraintTolerance", "minimumCoMHeight", "maximumAngularMomentum", "feetMaximumRelativeHeight"}
On(r, f) == r.b[f] = 1
Has(r, f) == r.p[f] # 0
Frame(r, f) == r.s[f] # 0
Three(r, f) == Len(r.w[f]) = 3
Dofs(r, f) == Len(r.w[f]) = r.dofs
Ordered(lim) == \A j \in 1..Len(lim) : lim[j][1] <= lim[j][2]
Ratios(sq, n) == Len(sq) = n /\ \A i \in 1..Len(sq) : 0 <= sq[i] /\ sq[i] <= 8

Numbers(r) == /\ \A f \in NonNeg : r.n[f] >= 0
              /\ r.n["maximumDt"] > 2 * r.n["minimumDt"]
              /\ r.n["activeControlPercentage"] \in 0..8
              /\ r.n["indexOfLateralDirection"] \in 0..2
Robot(r) == /\ r.s["floatingBaseName"] \in 1..4
            /\ Frame(r, "leftFrameName") /\ Frame(r, "rightFrameName")
            /\ Frame(r, "referenceFrameNameForFeetDistance") /\ Frame(r, "otherFrameNameForFeetDistance")
            /\ Len(r.pl) = Len(r.pr)
            /\ Len(r.q) = r.dofs /\ Len(r.qd) = r.dofs /\ Ordered(r.q) /\ Ordered(r.qd)
            /\ \A i \in 1..3 : r.x["velocityMaximumDerivative"][i] >= 0
Kinds(r) == /\ r.e["complementarity"] = "Dynamical" => r.n["dynamicComplementarityUpperBound"] >= 0
            /\ r.e["complementarity"] = "Classical" => r.n["classicalComplementarityTolerance"] >= 0
            /\ r.e["planarComplementarity"] = "Classical" => r.n["classicalPlanarComplementarityTolerance"] >= 0
            /\ r.e["planarComplementarity"] # "Classical" => r.n["planarVelocityHyperbolicTangentScaling"] >= 0
\* what each switched-on term needs
Terms(r) ==
  /\ On(r, "constrainTargetCoMPosition") => Has(r, "targetCoMPositionTolerance")
  /\ On(r, "comCostActive") => Three(r, "comWeights") /\ Has(r, "desiredCoMTrajectory")
  /\ On(r, "comVelocityCostActive") => Three(r, "comVelocityWeights") /\ Has(r, "desiredCoMVelocityTrajectory")
  /\ On(r, "frameCostActive") => Frame(r, "frameForOrientationCost") /\ Has(r, "desiredRotationTrajectory") /\ Has(r, "frameCostTimeVaryingWeight")
  /\ On(r, "frameAngularVelocityCostActive") => Frame(r, "frameForOrientationCost") /\ Has(r, "desiredRotationTrajectory")
  /\ On(r, "jointsRegularizationCostActive") => Has(r, "desiredJointsTrajectory") /\ Dofs(r, "jointsRegularizationWeights")
  /\ On(r, "jointsVelocityCostActive") => Has(r, "desiredJointsVelocityTrajectory") /\ Dofs(r, "jointsVelocityCostWeights")
  /\ On(r, "jointsVelocityForPosturalCostActive") => Has(r, "desiredJointsTrajectory") /\ Dofs(r, "jointsRegularizationWeights") /\ Dofs(r, "jointsVelocityCostWeights")
  /\ On(r, "staticTorquesCostActive") => Dofs(r, "staticTorquesCostWeights")
  /\ On(r, "forceDerivativeCostActive") => Has(r, "desiredForceDerivativeTrajectory") /\ Three(r, "forceDerivativeWeights")
  /\ On(r, "pointAccelerationCostActive") => Has(r, "desiredPointAccelerationTrajectory") /\ Three(r, "pointAccelerationWeights")
  /\ On(r, "swingCostActive") => r.n["desiredSwingHeight"] >= 0
  /\ On(r, "meanPointPositionCostActive") => Has(r, "desiredMeanPointPosition") /\ Has(r, "meanPointPositionCostTimeVaryingWeight")
  /\ On(r, "basePositionCostActive") => Three(r, "basePositionCostWeights") /\ Has(r, "desiredBasePositionTrajectory")
  /\ On(r, "baseQuaternionCostActive") => Has(r, "desiredBaseQuaternionTrajectory")
  /\ On(r, "baseLinearVelocityCostActive") => Has(r, "desiredBaseLinearVelocityTrajectory") /\ Three(r, "baseLinearVelocityCostWeights")
  /\ On(r, "baseQuaternionVelocityCostActive") => Has(r, "desiredBaseQuaternionVelocityTrajectory")
  /\ On(r, "leftFootYawCostActive") => Has(r, "desiredLeftFootYaw")
  /\ On(r, "rightFootYawCostActive") => Has(r, "desiredRightFootYaw")
  /\ On(r, "forceRatioCostActive") => Ratios(r.rl, Len(r.pl)) /\ Ratios(r.rr, Len(r.pr))
Acceptable(r) == Numbers(r) /\ Robot(r) /\ Kinds(r) /\ Terms(r)

None == [none |-> TRUE]
InitSt == [valid |-> FALSE, rec |-> None]
Step(st, c) ==
  CASE c.op = "reset" -> InitSt
    [] c.op = "set" -> IF Acceptable(c.rec) THEN [valid |-> TRUE, rec |-> c.rec] ELSE st
    [] c.op = "ctor" -> IF Acceptable(c.rec) THEN [valid |-> TRUE, rec |-> c.rec] ELSE InitSt
    [] OTHER -> st

\* ----------------------------------------------------------------- base record and its single-field variations
NumF == NonNeg \cup {"activeControlPercentage", "indexOfLateralDirection", "dynamicComplementarityUpperBound", "classicalComplementarityTolerance",
         "classicalPlanarComplementarityTolerance", "planarVelocityHyperbolicTangentScaling", "desiredSwingHeight",
         "updateTolerance", "normalForceDissipationRatio", "normalForceHyperbolicSecantScaling", "normalVelocityHyperbolicSecantScaling",
         "comCostOverallWeight", "comVelocityCostOverallWeight", "frameCostOverallWeight", "forceMeanCostOverallWeight", "forceRatioCostOverallWeight",
         "jointsRegularizationCostOverallWeight", "jointsVelocityCostOverallWeight", "staticTorquesCostOverallWeight", "forceDerivativesCostOverallWeight",
         "pointAccelerationCostOverallWeight", "swingCostOverallWeight", "phantomForcesCostOverallWeight", "meanPointPositionCostOverallWeight",
         "leftFootYawCostOverallWeight", "rightFootYawCostOverallWeight", "feetDistanceCostOverallWeight", "jointsVelocityForPosturalCostOverallWeight",
         "complementarityCostOverallWeight", "basePositionCostOverallWeight", "baseQuaternionCostOverallWeight", "frameAngularVelocityCostOverallWeight",
         "rotationalPIDgain", "baseLinearVelocityCostOverallWeight", "baseQuaternionVelocityCostOverallWeight", "angularMomentumCostOverallWeight",
         "constraintsHessianRegularization", "costsHessianRegularization"}
FlagF == {"constrainTargetCoMPosition", "comCostActive", "comVelocityCostActive", "frameCostActive", "forceMeanCostActive", "forceRatioCostActive",
          "jointsRegularizationCostActive", "jointsVelocityCostActive", "staticTorquesCostActive", "forceDerivativeCostActive", "pointAccelerationCostActive",
          "swingCostActive", "phantomForcesCostActive", "meanPointPositionCostActive", "leftFootYawCostActive", "rightFootYawCostActive",
          "feetDistanceCostActive", "jointsVelocityForPosturalCostActive", "complementarityCostActive", "basePositionCostActive", "baseQuaternionCostActive",
          "frameAngularVelocityCostActive", "baseLinearVelocityCostActive", "baseQuaternionVelocityCostActive", "angularMomentumCostActive",
          "useConstraintsHessianRegularization", "useCostsHessianRegularization"}
RefF == {"targetCoMPositionTolerance", "desiredCoMTrajectory", "desiredCoMVelocityTrajectory", "desiredRotationTrajectory", "frameCostTimeVaryingWeight",
         "desiredJointsTrajectory", "desiredJointsVelocityTrajectory", "desiredForceDerivativeTrajectory", "desiredPointAccelerationTrajectory",
         "meanPointPositionCostTimeVaryingWeight", "desiredMeanPointPosition", "desiredLeftFootYaw", "desiredRightFootYaw", "desiredBasePositionTrajectory",
         "desiredBaseQuaternionTrajectory", "desiredBaseLinearVelocityTrajectory", "desiredBaseQuaternionVelocityTrajectory"}
WeightF == {"comWeights", "comVelocityWeights", "jointsRegularizationWeights", "jointsVelocityCostWeights", "staticTorquesCostWeights",
            "forceDerivativeWeights", "pointAccelerationWeights", "basePositionCostWeights", "baseLinearVelocityCostWeights"}
DofW == {"jointsRegularizationWeights", "jointsVelocityCostWeights", "staticTorquesCostWeights"}
FrameF == {"floatingBaseName", "leftFrameName", "rightFrameName", "referenceFrameNameForFeetDistance", "otherFrameNameForFeetDistance", "frameForOrientationCost"}
VecF == {"gravity", "forceMaximumDerivative", "velocityMaximumDerivative", "swingCostWeights"}
Comp == {"HyperbolicSecantInequality", "Dynamical", "Classical", "HyperbolicSecantInDynamics"}
Plan == {"HyperbolicTangentInDynamics", "HyperbolicTangentInequality", "Classical"}
Base(nd, np) ==
  [n |-> [f \in NumF |-> CASE f = "minimumDt" -> 1 [] f = "maximumDt" -> 4 [] f = "indexOfLateralDirection" -> 1 [] OTHER -> 2],
   b |-> [f \in FlagF |-> 1], p |-> [f \in RefF |-> 1],
   w |-> [f \in WeightF |-> [i \in 1..(IF f \in DofW THEN nd ELSE 3) |-> i]],
   s |-> [f \in FrameF |-> IF f = "floatingBaseName" THEN 1 ELSE 2],
   e |-> [complementarity |-> "Dynamical", planarComplementarity |-> "HyperbolicTangentInDynamics"],
   x |-> [f \in VecF |-> <<1, 2, 3>>],
   q |-> [i \in 1..nd |-> <<-i, i>>], qd |-> [i \in 1..nd |-> <<-8, 8 + i>>],
   pl |-> [i \in 1..np |-> <<i, 0, 0>>], pr |-> [i \in 1..np |-> <<0, i, 0>>],
   rl |-> [i \in 1..np |-> 2], rr |-> [i \in 1..np |-> 3], dofs |-> nd]
BaseOk == \A nd \in 0..3, np \in 0..4 : Acceptable(Base(nd, np))
=============================================================================
