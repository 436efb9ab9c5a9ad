From d74ac0d8e515122a867515b2ba00b54aae12f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 01/36] fix: forget the instants that are no longer configured
 when the timings change

---
 src/private/TimelySharedKinDynComputations.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7961d85..44090b7 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -134,10 +134,15 @@ std::string TimelySharedKinDynComputations::getFloatingBase() const
 
 bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timings)
 {
-    if (!isValid()) {
+    if (!isValid() || timings.empty()) {
         return false;
     }
 
+    if (timings.size() < m_pointerContainer.size()) {
+        m_pointerContainer.resize(timings.size()); //the instants which are no longer configured should not be served
+    }
+    m_previousIndex = 0;
+
     for (size_t i = 0; i < timings.size(); ++i) {
         if (i < m_pointerContainer.size()) {
             m_pointerContainer[i].time = timings[i];
-- 
2.43.0


From 4d2426af4295486d9e5c3d833a4a99e99a320727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 02/36] fix: finite weight for references active at an instant
 or at any time

---
 src/PositionReferenceGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 2f2673e..64ea377 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -88,7 +88,10 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
         return m_outputWeight;
     }
 
-    double increaseAmount = (time - activeElement->activeRange.initTime())/(activeElement->activeRange.endTime() - activeElement->activeRange.initTime());
+    double increaseAmount = 0.0;
+    if (activeElement->activeRange.length() > 0.0) { //the weight does not increase if the range is an instant or if it is always active
+        increaseAmount = (time - activeElement->activeRange.initTime())/(activeElement->activeRange.endTime() - activeElement->activeRange.initTime());
+    }
 
     for (unsigned int i = 0; i < 3; ++i) {
         m_outputWeight(i) = (m_increaseFactors(i) * increaseAmount + 1.0) * (m_increaseFactors(i) * increaseAmount + 1.0);
-- 
2.43.0


From ca53e8c0c3889b0a082951f0d99e733df9b37e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 03/36] fix: initialize the position returned when no reference
 is active

---
 src/PositionReferenceGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 64ea377..be5ab45 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -102,6 +102,7 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
 
 PositionReference::PositionReference(std::shared_ptr<PositionReferenceGeneratorData> data) {
     m_data = data;
+    m_zeroPosition.zero();
 }
 
 const iDynTree::Position &PositionReference::get(double time, bool &isValid) {
-- 
2.43.0


From 4a5c98adf21245c8d72de535b555ec3a2c0911a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 04/36] fix: check the joint velocity limits without assuming
 they are as many as the joint limits

---
 src/Settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 01be9c6..fe30c12 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -82,7 +82,8 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     for (size_t j = 0; j < inputSettings.jointsLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsLimits[j].first > inputSettings.jointsLimits[j].second,
                              "The lower limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
-
+    }
+    for (size_t j = 0; j < inputSettings.jointsVelocityLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsVelocityLimits[j].first > inputSettings.jointsVelocityLimits[j].second,
                              "The lower velocity limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
     }
-- 
2.43.0


From fc41b7e762465deda2daa1397444ad0526321336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 05/36] fix: refuse settings that miss a reference or a weight
 used by an active cost

---
 src/Settings.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index fe30c12..5785cc5 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -121,13 +121,41 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                              "The jointRegularizationWeights size does not match the robot DoFs.");
     }
 
+    if (inputSettings.jointsVelocityCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsVelocityTrajectory), "The desiredJointsVelocityTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.jointsVelocityForPosturalCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsTrajectory), "The desiredJointsTrajectory is empty.");
+        errors += checkError(inputSettings.jointsRegularizationWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointRegularizationWeights size does not match the robot DoFs.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.frameAngularVelocityCostActive) {
+        errors += checkError(!(inputSettings.robotModel.isFrameNameUsed(inputSettings.frameForOrientationCost)),
+                             "The frameForOrientationCost does not appear in the model.");
+        errors += checkError(!inputSettings.desiredRotationTrajectory, "The desiredRotationTrajectory is empty.");
+    }
+
+    if (inputSettings.leftFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredLeftFootYaw, "The desiredLeftFootYaw pointer is empty.");
+    }
+
+    if (inputSettings.rightFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredRightFootYaw, "The desiredRightFootYaw pointer is empty.");
+    }
+
     if (inputSettings.staticTorquesCostActive) {
         errors += checkError(inputSettings.staticTorquesCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
                              "The staticTorquesCostWeights size does not match the robot DoFs.");
     }
 
     if (inputSettings.forceDerivativeCostActive) {
-        errors += checkError(!(inputSettings.desiredRotationTrajectory), " The desiredRotationTrajectory is empty.");
+        errors += checkError(!(inputSettings.desiredForceDerivativeTrajectory), " The desiredForceDerivativeTrajectory is empty.");
         errors += checkError(inputSettings.forceDerivativeWeights.size() != 3, "The forceDerivativeWeights is expected to be three dimensional.");
     }
 
-- 
2.43.0


From 92243c271e87a3bc848d401015114e4557620c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 06/36] fix: collect the default joint limits from all the
 joints, fixed ones included

---
 src/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 5785cc5..b726896 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -337,7 +337,7 @@ SettingsStruct Settings::Defaults(const iDynTree::Model &newModel)
     std::pair<double, double> singleJointLimit;
 
     //for each joint, ask the limits
-    for (iDynTree::JointIndex jointIdx = 0; jointIdx < static_cast<int>(n); ++jointIdx) {
+    for (iDynTree::JointIndex jointIdx = 0; jointIdx < static_cast<int>(newModel.getNrOfJoints()); ++jointIdx) {
         iDynTree::IJointConstPtr joint = newModel.getJoint(jointIdx);
 
         //for each DoF modelled by the joint get the limits
-- 
2.43.0


From ec28ebcd1bb826ef2bca82778e080aeb84e85c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 07/36] fix: PhantomForcesCost second derivative with respect
 to the point height misses a force factor

---
 src/private/PhantomForcesCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/PhantomForcesCost.cpp b/src/private/PhantomForcesCost.cpp
index 23dede1..ce94380 100644
--- a/src/private/PhantomForcesCost.cpp
+++ b/src/private/PhantomForcesCost.cpp
@@ -134,7 +134,7 @@ bool PhantomForcesCost::costSecondPartialDerivativeWRTState(double /*time*/, con
 
     double phantomForce = (1- delta) * fz;
 
-    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative;
+    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * fz * deltaDoubleDerivative;
     partialDerivative(fzCol, fzCol) = (1- delta) * (1- delta);
     partialDerivative(fzCol, pzCol) = -2.0 * phantomForce * deltaDerivative;
     partialDerivative(pzCol, fzCol) = partialDerivative(fzCol, pzCol);
-- 
2.43.0


From 4d2565eebc4b80e9affc66d6f7fdc65d3ce1b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 08/36] fix: PlanarVelocityControlConstraints Hessian pairs the
 multipliers with the wrong maximum and uses a stale height

---
 src/private/PlanarVelocityControlConstraints.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index a8b3685..359f527 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -173,11 +173,12 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
 {
     m_pimpl->stateVariables = state;
 
+    m_pimpl->pointPosition = m_pimpl->stateVariables(m_pimpl->positionPointRange);
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(1)) * m_pimpl->maximumDerivatives(0)) +
-                                             ((lambda(2) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
+    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(2)) * m_pimpl->maximumDerivatives(0)) +
+                                             ((lambda(1) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
 
     return true;
 }
-- 
2.43.0


From 551373acbe5df9df61ede1021803abbabfc1268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 09/36] fix: FootYawCost subtracts the initial yaw of the edge
 instead of adding it

---
 src/private/FootYawCost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 2e85abf..171a227 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -136,7 +136,7 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
@@ -160,7 +160,7 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
@@ -196,7 +196,7 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
-- 
2.43.0


From d9410cac9c9f7aa2fae8f629919e8d2b43c6335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 10/36] fix: DynamicalConstraints state Jacobian sparsity
 misses the normal force dissipation entry

---
 src/private/DynamicalConstraints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index c497ef1..534e56d 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -264,6 +264,7 @@ public:
             stateJacobianSparsity.addDenseBlock(static_cast<size_t>(foot.positionPoints[i].offset),
                                                 static_cast<size_t>(foot.positionPoints[i].offset) + 2, 2, 1);
             stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.positionPoints[i].offset + 2));
+            stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.forcePoints[i].offset + 2));
 
             stateHessianSparsity.addDenseBlock(comPositionRange, foot.forcePoints[i]);
             stateHessianSparsity.addDenseBlock(foot.forcePoints[i], comPositionRange);
-- 
2.43.0


From c0479b7ffc7743688e01171d3064946dd03e1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 11/36] fix: FrameAngularVelocityCost never passes the control
 variables to the robot state

---
 src/private/FrameAngularVelocityCost.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index 89c34fa..9e9b6bb 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -55,6 +55,9 @@ public:
         robotState.base_position = basePosition;
 
         robotState.s = stateVariables(jointsPositionRange);
+
+        robotState.base_quaternionVelocity = controlVariables(baseQuaternionDerivativeRange);
+        robotState.s_dot = controlVariables(jointsVelocityRange);
         sharedKinDyn->updateRobotState(robotState);
 
     }
-- 
2.43.0


From 145cedd67ac51a79be2bc563d98103c374980676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 12/36] fix: ExpressionsServer base twist contains the inertial
 angular velocity instead of the body one

---
 src/private/ExpressionsServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 147bfe0..548c16e 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -80,7 +80,7 @@ ExpressionsServer::ExpressionsServer(std::shared_ptr<TimelySharedKinDynComputati
     m_pimpl->s_dot = levi::Variable(timelySharedKinDyn->model().getNrOfDOFs(), "s_dot");
 
     levi::Expression minusQuaternion = -quaternionImaginary;
-    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) - minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
+    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) + minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
 
     m_pimpl->baseTwist = levi::Expression::Vertcat(m_pimpl->baseLinearVelocity, angularVelocity, "baseTwist");
 
-- 
2.43.0


From b1671879640c70cda181ff602bd84f442f63107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 13/36] fix: FrameAngularVelocityCost control Hessian is
 returned and declared empty although the cost is quadratic in the controls

---
 src/private/FrameAngularVelocityCost.cpp | 55 ++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index 9e9b6bb..31be70b 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -35,7 +35,8 @@ public:
 
     levi::Expression asExpression, quaternionDerivative, jointsDerivative, baseQuaternionVelocityDerivative, jointsVelocityDerivative,
         quaternionHessian, jointsHessian, quaternionJointsHessian, quaternionQuaternionDerivativeHessian,
-        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian;
+        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian,
+        quaternionDerivativeHessian, quaternionDerivativeJointsVelocityHessian, jointsVelocityHessian;
 
     std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredTrajectory;
 
@@ -89,6 +90,9 @@ public:
         quaternionJointsVelocityHessian = quaternionDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
         jointsQuaternionDerivativeHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
         jointsJointsVelocityHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        quaternionDerivativeHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
+        quaternionDerivativeJointsVelocityHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        jointsVelocityHessian = jointsVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
     }
 
 };
@@ -148,7 +152,10 @@ FrameAngularVelocityCost::FrameAngularVelocityCost(const VariablesLabeller &stat
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->baseQuaternionDerivativeRange);
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->jointsVelocityRange);
 
-    m_pimpl->controlHessianSparsity.clear();
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->jointsVelocityRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->jointsVelocityRange);
 
 }
 
@@ -166,6 +173,9 @@ FrameAngularVelocityCost::~FrameAngularVelocityCost()
     m_pimpl->quaternionJointsVelocityHessian.clearDerivativesCache();
     m_pimpl->jointsQuaternionDerivativeHessian.clearDerivativesCache();
     m_pimpl->jointsJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->quaternionDerivativeHessian.clearDerivativesCache();
+    m_pimpl->quaternionDerivativeJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->jointsVelocityHessian.clearDerivativesCache();
 }
 
 bool FrameAngularVelocityCost::setDesiredRotationTrajectory(std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredRotationTrajectory)
@@ -308,9 +318,46 @@ bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTState(double time,
     return true;
 }
 
-bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double /*time*/, const iDynTree::VectorDynSize &/*state*/,
-                                                                 const iDynTree::VectorDynSize &/*control*/, iDynTree::MatrixDynSize &/*partialDerivative*/)
+bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double time, const iDynTree::VectorDynSize &state,
+                                                                     const iDynTree::VectorDynSize &control,
+                                                                     iDynTree::MatrixDynSize &partialDerivative)
 {
+    m_pimpl->stateVariables = state;
+    m_pimpl->controlVariables = control;
+
+    m_pimpl->sharedKinDyn = m_pimpl->timedSharedKinDyn->get(time);
+
+    m_pimpl->updateRobotState();
+    m_pimpl->expressionsServer->updateRobotState(time);
+
+    bool isValid = false;
+    const iDynTree::Rotation& desiredRotation = m_pimpl->desiredTrajectory->get(time, isValid);
+
+    if (!isValid) {
+        std::cerr << "[ERROR][FrameOrientationCost::costEvaluation] Unable to retrieve a valid rotation at time " << time
+                  << "." << std::endl;
+        return false;
+    }
+
+    m_pimpl->desiredRotation = iDynTree::toEigen(desiredRotation);
+
+    iDynTree::iDynTreeEigenMatrixMap hessianMap = iDynTree::toEigen(partialDerivative);
+
+    hessianMap.block<4,4>(m_pimpl->baseQuaternionDerivativeRange.offset, m_pimpl->baseQuaternionDerivativeRange.offset) =
+        m_pimpl->quaternionDerivativeHessian.evaluate();
+
+    hessianMap.block(m_pimpl->jointsVelocityRange.offset, m_pimpl->jointsVelocityRange.offset,
+                     m_pimpl->jointsVelocityRange.size, m_pimpl->jointsVelocityRange.size) =
+        m_pimpl->jointsVelocityHessian.evaluate();
+
+    const Eigen::MatrixXd& mixedHessian = m_pimpl->quaternionDerivativeJointsVelocityHessian.evaluate();
+
+    hessianMap.block(m_pimpl->baseQuaternionDerivativeRange.offset, m_pimpl->jointsVelocityRange.offset,
+                     m_pimpl->baseQuaternionDerivativeRange.size, m_pimpl->jointsVelocityRange.size) = mixedHessian;
+
+    hessianMap.block(m_pimpl->jointsVelocityRange.offset, m_pimpl->baseQuaternionDerivativeRange.offset,
+                     m_pimpl->jointsVelocityRange.size, m_pimpl->baseQuaternionDerivativeRange.size) = mixedHessian.transpose();
+
     return true;
 }
 
-- 
2.43.0


From e589d0cc64d37b3d3d920f774e9fab1f1a3ed824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 14/36] fix: StaticTorquesCost gradient has the wrong sign in
 the joints part when a foot is rotated by half a turn

---
 src/private/StaticTorquesCost.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/private/StaticTorquesCost.cpp b/src/private/StaticTorquesCost.cpp
index 96498c2..a9c4dfb 100644
--- a/src/private/StaticTorquesCost.cpp
+++ b/src/private/StaticTorquesCost.cpp
@@ -107,14 +107,17 @@ public:
 
         pointToLeftJacMap.topRows<3>().setIdentity();
 
+        //The quaternion of the inverse rotation has to be obtained from this one. If computed from the inverse rotation matrix, it may have the opposite sign
+        iDynTree::Vector4 a_quaternion_f = f_T_a.inverse().getRotation().asQuaternion();
+
         for (size_t p = 0; p < foot.pointForces.size(); ++p) {
             pointToLeftJacMap.bottomRows<3>() = iDynTree::skew(iDynTree::toEigen(foot.tranformsInFoot[p].getPosition()));
 
             fullJacobianMap.block(0, jointsPositionRange.offset, n, n) -= (frameJacobianMap.rightCols(n)).transpose() * pointToLeftJacMap *
                     iDynTree::toEigen(RotatedVectorQuaternionJacobian((foot.pointForces[p]).getLinearVec3(),
-                                                                      f_T_a.getRotation().asQuaternion())) *
+                                                                      InverseQuaternion(a_quaternion_f))) *
                     iDynTree::toEigen(InverseQuaternionDerivative()) *
-                    iDynTree::toEigen(QuaternionLeftTrivializedDerivative(f_T_a.inverse().getRotation().asQuaternion())) *
+                    iDynTree::toEigen(QuaternionLeftTrivializedDerivative(a_quaternion_f)) *
                     frameJacobianMap.bottomRightCorner(3, n);
         }
     }
-- 
2.43.0


From 1f70cb42f2a16d9ed848e6d7e3204248b154c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 15/36] fix: derivative of the adjoint transform uses the
 target frame where the motion subspace is in the target link frame

---
 src/private/AdjointTransformExpression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/AdjointTransformExpression.cpp b/src/private/AdjointTransformExpression.cpp
index 85ae8c4..02728a8 100644
--- a/src/private/AdjointTransformExpression.cpp
+++ b/src/private/AdjointTransformExpression.cpp
@@ -251,7 +251,9 @@ public:
             parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
 
             jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransform(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink);
+                expressionsServer->adjointTransform(baseFrame, model.getLinkName(targetLink)) *
+                expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink) *
+                expressionsServer->adjointTransform(model.getLinkName(targetLink), targetFrame);
 
             m_nonZeros.push_back(jointIndex);
 
@@ -377,7 +379,9 @@ public:
             parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
 
             jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransformWrench(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink);
+                expressionsServer->adjointTransformWrench(baseFrame, model.getLinkName(targetLink)) *
+                expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink) *
+                expressionsServer->adjointTransformWrench(model.getLinkName(targetLink), targetFrame);
 
             m_nonZeros.push_back(jointIndex);
 
-- 
2.43.0


From 60f48d28c23bf79a6b392547dc115435c88d0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 16/36] fix: ExpressionsServer returns the quaternion error of
 another desired rotation when two terms look at the same frame

---
 src/private/ExpressionsServer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 548c16e..03a4089 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -21,6 +21,7 @@
 #include <iDynTree/Core/EigenHelpers.h>
 #include <cassert>
 #include <unordered_map>
+#include <cstdint>
 
 using namespace DynamicalPlanner::Private;
 
@@ -513,13 +514,15 @@ levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFrame, const levi::Variable &desiredQuaternion)
 {
-    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(desiredFrame);
+    // The same frame can be compared against different desired quaternions
+    std::string label = desiredFrame + "_" + std::to_string(reinterpret_cast<std::uintptr_t>(desiredQuaternion.evaluable().lock().get()));
+    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(label);
 
     if (element != m_pimpl->quaternionsErrorsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = desiredFrame;
+        newElement.first = label;
         newElement.second = QuaternionError(desiredFrame, this, desiredQuaternion);
         auto result = m_pimpl->quaternionsErrorsMap.insert(newElement);
         assert(result.second);
-- 
2.43.0


From 2004d12936140ab1046d32a3adb91a8118965a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 17/36] fix: solution vectors keep the sizes of previous
 settings when the solver is reconfigured

---
 src/Solver.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 1356e7a..4198f4a 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1249,11 +1249,11 @@ public:
 
     void resizeSolutionVector(size_t numberOfDofs, size_t numberOfPoints) {
 
-        unstructuredOptimalStates.resize(stateTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(stateStructure.size())));
-        unstructuredOptimalControl.resize(controlTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(controlStructure.size())));
+        unstructuredOptimalStates.assign(stateTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(stateStructure.size())));
+        unstructuredOptimalControl.assign(controlTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(controlStructure.size())));
 
-        optimalStates.resize(stateTimings.size(), State(numberOfDofs, numberOfPoints));
-        optimalControls.resize(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
+        optimalStates.assign(stateTimings.size(), State(numberOfDofs, numberOfPoints));
+        optimalControls.assign(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
     }
 
 
@@ -1261,8 +1261,8 @@ public:
         size_t numberOfDofs = settings.robotModel.getNrOfDOFs();
         size_t numberOfPoints = settings.leftPointsPosition.size();
 
-        optimalStates.resize(stateTimings.size(), State(numberOfDofs, numberOfPoints));
-        optimalControls.resize(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
+        optimalStates.assign(stateTimings.size(), State(numberOfDofs, numberOfPoints));
+        optimalControls.assign(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
 
         for (size_t i = 0; i < stateTimings.size(); ++i) {
             setStateFromVariables(unstructuredOptimalStates[i], stateTimings[i], optimalStates[i]);
-- 
2.43.0


From 95312e90b5718a0abc85d762522a4fe51f3585a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 18/36] fix: solver freezes the contact controls at an absolute
 time and keeps the infinities of a replaced optimizer in its bounds

---
 src/Solver.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 4198f4a..2c5d446 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1215,24 +1215,27 @@ public:
             iDynTree::toEigen(segment(secondControlUpperBound, ranges.right.forceControlPoints[i])).setZero();
         }
 
+        //the horizon starts from the time of the initial state
+        const double switchTime = initialState.time + st.horizon * st.activeControlPercentage;
+
         std::shared_ptr<VariableBound> variableStateLowerBounds;
         std::shared_ptr<VariableBound> variableStateUpperBounds;
         std::shared_ptr<VariableBound> variableControlLowerBounds;
         std::shared_ptr<VariableBound> variableControlUpperBounds;
 
         if (st.constrainTargetCoMPosition) {
-            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, st.horizon * st.activeControlPercentage,
+            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, switchTime,
                                                                        st.constrainTargetCoMPositionRange, ranges.comPosition, -1.0,
                                                                        st.desiredCoMTrajectory, st.targetCoMPositionTolerance);
-            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, st.horizon * st.activeControlPercentage,
+            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, switchTime,
                                                                        st.constrainTargetCoMPositionRange, ranges.comPosition, +1.0,
                                                                        st.desiredCoMTrajectory, st.targetCoMPositionTolerance);
         } else {
-            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, st.horizon * st.activeControlPercentage);
-            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, st.horizon * st.activeControlPercentage);
+            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, switchTime);
+            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, switchTime);
         }
-        variableControlLowerBounds = std::make_shared<VariableBound>(controlLowerBound, secondControlLowerBound, st.horizon * st.activeControlPercentage);
-        variableControlUpperBounds = std::make_shared<VariableBound>(controlUpperBound, secondControlUpperBound, st.horizon * st.activeControlPercentage);
+        variableControlLowerBounds = std::make_shared<VariableBound>(controlLowerBound, secondControlLowerBound, switchTime);
+        variableControlUpperBounds = std::make_shared<VariableBound>(controlUpperBound, secondControlUpperBound, switchTime);
 
         bool ok = ocProblem->setStateBoxConstraints(variableStateLowerBounds, variableStateUpperBounds);
         if (!ok) {
@@ -1709,6 +1712,14 @@ bool Solver::solve(std::vector<State> &optimalStates, std::vector<Control> &opti
         return false;
     }
 
+    //the bounds depend on the initial time and on the value of infinity of the optimizer
+    ok = m_pimpl->setBounds(m_pimpl->settings);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::solve] Failed to set the variables bounds." << std::endl;
+        return false;
+    }
+
     if (m_pimpl->stateGuess && m_pimpl->controlGuess) {
         ok = m_pimpl->multipleShootingSolver->setGuesses(m_pimpl->stateGuess, m_pimpl->controlGuess);
         if (!ok) {
-- 
2.43.0


From 347b2481a71a471e9b0732a015ca7227288f95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 19/36] fix: solver accepts guesses and initial states for a
 half configured problem after specifySettings fails

---
 src/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 2c5d446..5342744 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1412,6 +1412,7 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    m_pimpl->prepared = false; //from here on the previous problem is being replaced
     m_pimpl->settings = settings.getSettings();
 
     const SettingsStruct& st = m_pimpl->settings;
-- 
2.43.0


From 6ca0d69e0a714d4acc551a6cc0e0f9090c90a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 20/36] fix: solver ignores the gravity and the floating base
 of the settings

---
 src/Solver.cpp                       | 9 +++++++++
 src/private/DynamicalConstraints.cpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 5342744..b588e30 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1444,6 +1444,15 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    m_pimpl->timelySharedKinDyn->setGravity(st.gravity);
+
+    ok = m_pimpl->timelySharedKinDyn->setFloatingBase(st.floatingBaseName);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the floating base." << std::endl;
+        return false;
+    }
+
     m_pimpl->expressionsServer = std::make_shared<ExpressionsServer>(m_pimpl->timelySharedKinDyn);
 
     HyperbolicTangent velocityActivationXY;
diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index 534e56d..ef37767 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -350,7 +350,7 @@ DynamicalConstraints::DynamicalConstraints(const VariablesLabeller &stateVariabl
 
 
     m_pimpl->gravityVector.zero();
-    m_pimpl->gravityVector(2) = -9.81;
+    iDynTree::toEigen(m_pimpl->gravityVector).topRows<3>() = iDynTree::toEigen(timelySharedKinDyn->gravity());
 
 //    m_pimpl->stateJacobianBuffer.resize(static_cast<unsigned int>(stateVariables.size()), static_cast<unsigned int>(stateVariables.size()));
 //    m_pimpl->stateJacobianBuffer.zero();
-- 
2.43.0


From ab66ed0b115940573946d403f551446d38f1e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 21/36] fix: solver scales the force ratio costs with the
 weight of the mean force costs

---
 src/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index b588e30..a718b2f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -464,7 +464,7 @@ public:
             for (size_t i = 0; i < st.leftPointsPosition.size(); ++i) {
                 costs.leftForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Left", i);
                 costs.leftForceRatios[i]->setDesiredRatio(st.desiredLeftRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.leftForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.leftForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
@@ -473,7 +473,7 @@ public:
             for (size_t i = 0; i < st.rightPointsPosition.size(); ++i) {
                 costs.rightForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Right", i);
                 costs.rightForceRatios[i]->setDesiredRatio(st.desiredRightRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.rightForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.rightForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
-- 
2.43.0


From e3b45c55158b75ac9a31b712c4bc45b4d0300f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 22/36] fix: levi division by a scalar takes its number of
 columns from the divisor

---
 extern/levi/include/levi/OperatorsEvaluables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/OperatorsEvaluables.h b/extern/levi/include/levi/OperatorsEvaluables.h
index 02dcf95..809d6f1 100644
--- a/extern/levi/include/levi/OperatorsEvaluables.h
+++ b/extern/levi/include/levi/OperatorsEvaluables.h
@@ -823,7 +823,7 @@ private:
 public:
 
     DivisionEvaluable(const levi::ExpressionComponent<LeftEvaluable>& lhs, const levi::ExpressionComponent<RightEvaluable>& rhs)
-        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), rhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
+        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), lhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
     {
         assert(rhs.rows() == 1 && rhs.cols() == 1);
         this->m_info->type = levi::EvaluableType::Division;
-- 
2.43.0


From ba0b4cd98825bf4b624f7bdbd413fdcf61b791b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 23/36] fix: levi rows and columns of rectangular identities
 reach outside of the matrix

---
 extern/levi/include/levi/BasicEvaluables.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extern/levi/include/levi/BasicEvaluables.h b/extern/levi/include/levi/BasicEvaluables.h
index c8df137..d9fa227 100644
--- a/extern/levi/include/levi/BasicEvaluables.h
+++ b/extern/levi/include/levi/BasicEvaluables.h
@@ -301,12 +301,18 @@ public:
     virtual ~IdentityEvaluable() final;
 
     virtual levi::ExpressionComponent<levi::Evaluable<typename levi::Evaluable<Matrix>::row_type>> row(Eigen::Index row) final {
+        if (row >= this->cols()) {
+            return levi::ExpressionComponent<levi::NullEvaluable<typename levi::Evaluable<Matrix>::row_type>>(1, this->cols());
+        }
         levi::Triplet<typename levi::Evaluable<Matrix>::value_type> nonZero = {0, row, levi::ExpressionComponent<levi::IdentityEvaluable<typename levi::Evaluable<Matrix>::value_type>>()};
         return levi::ExpressionComponent<SingleElementMatrix<typename levi::Evaluable<Matrix>::row_type>>(1, this->cols(), nonZero,
                                                                                                           "e_" + std::to_string(row) + "^T");
     }
 
     virtual levi::ExpressionComponent<levi::Evaluable<typename levi::Evaluable<Matrix>::col_type>> col(Eigen::Index col) final {
+        if (col >= this->rows()) {
+            return levi::ExpressionComponent<levi::NullEvaluable<typename levi::Evaluable<Matrix>::col_type>>(this->rows(), 1);
+        }
         levi::Triplet<typename levi::Evaluable<Matrix>::value_type> nonZero = {col, 0, levi::ExpressionComponent<levi::IdentityEvaluable<typename levi::Evaluable<Matrix>::value_type>>()};
         return levi::ExpressionComponent<SingleElementMatrix<typename levi::Evaluable<Matrix>::col_type>>(this->rows(), 1, nonZero,
                                                                                                           "e_" + std::to_string(col));
-- 
2.43.0


From ed808d3bb802ccca78eaef58741383c6857a2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 24/36] fix: the robot state is forgotten when the model is
 loaded again

---
 src/private/SharedKinDynComputations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index a206685..56418d4 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -232,6 +232,7 @@ SharedKinDynComputations::~SharedKinDynComputations()
 bool SharedKinDynComputations::loadRobotModel(const iDynTree::Model &model)
 {
     std::lock_guard<std::mutex> guard(m_data->mutex);
+    m_data->updateNecessary = true;
     bool ok = m_data->kinDyn.loadRobotModel(model);
 
     if (ok) {
-- 
2.43.0


From 68ebbf3dc2c05485aa490dbea343a17c1dc0c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 25/36] fix: setting the floating base keeps entries of the
 mass matrix of the previous base

---
 src/private/SharedKinDynComputations.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index 56418d4..4967fdd 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -315,7 +315,13 @@ bool SharedKinDynComputations::setFloatingBase(const std::string &floatingBaseNa
 
     m_data->updateNecessary = true;
 
-    if (!m_data->kinDyn.setFloatingBase(floatingBaseName)) {
+    iDynTree::Model model = m_data->kinDyn.model();
+    if (model.getLinkIndex(floatingBaseName) == iDynTree::LINK_INVALID_INDEX) {
+        return false;
+    }
+
+    // Loading the model again clears the entries of the mass matrix which are nonzero with the previous base only
+    if (!m_data->kinDyn.loadRobotModel(model) || !m_data->kinDyn.setFloatingBase(floatingBaseName)) {
         return false;
     }
 
-- 
2.43.0


From 05636db672a07d6a33c7b635aba44056bde8ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 26/36] fix: a refused robot state leaves its base transform
 behind

---
 src/private/SharedKinDynComputations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index 4967fdd..e2b6e9d 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -77,6 +77,7 @@ bool SharedKinDynComputations::updateRobotStatePrivate(const RobotState &current
         bool ok = m_data->kinDyn.setRobotState(m_data->baseTransform, currentState.s, iDynTree::Twist(baseLinVelocity, baseAngVelocity),
                                                currentState.s_dot, m_data->gravity);
         if (!ok) {
+            m_data->updateNecessary = true; // the base transform is already the one of the refused state
             return false;
         }
         m_data->updateNecessary = false;
-- 
2.43.0


From dc371779eabd9a12ca9bf30aa428b1ecf9aa86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 27/36] fix: updating the expressions server with the state of
 another user is ignored

---
 src/private/ExpressionsServer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 03a4089..f5e9126 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -129,7 +129,8 @@ bool ExpressionsServer::updateRobotState(double time, const RobotState &currentS
     m_pimpl->time = time;
     m_pimpl->kinDyn = m_pimpl->timelySharedKinDyn->get(time);
 
-    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState))) {
+    // The shared object may have been updated with this state by others, or at another time
+    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState)) || !(m_pimpl->kinDyn->sameState(m_pimpl->robotState))) {
         if (!(m_pimpl->kinDyn->updateRobotState(currentState))){
             return false;
         }
-- 
2.43.0


From a00167d1b0a3118822128bcfca679f38e90d5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 28/36] fix: names of different expressions of the expressions
 server coincide

---
 src/private/ExpressionsServer.cpp | 47 +++++++++++++++++--------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index f5e9126..39924b8 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -54,6 +54,11 @@ public:
 
     bool first;
 
+    // The concatenation of two names alone may be the same for different pairs
+    static std::string pairLabel(const std::string& baseFrame, const std::string& targetFrame) {
+        return std::to_string(baseFrame.size()) + "_" + baseFrame + targetFrame;
+    }
+
     void clearDerivatives(ExpressionMap& map) {
         for (ExpressionMap::iterator it = map.begin(); it != map.end(); ++it) {
             it->second.clearDerivativesCache();
@@ -267,13 +272,13 @@ levi::Expression ExpressionsServer::comInBaseHessian(long column)
 
 levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6,6);
         } else {
@@ -287,7 +292,7 @@ levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFram
 
 levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = Implementation::pairLabel(baseFrame, targetFrame) + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->adjointDerivativeMap.find(label);
 
@@ -309,13 +314,13 @@ levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointWrenchMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6, 6);
         } else {
@@ -329,7 +334,7 @@ levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &ba
 
 levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = Implementation::pairLabel(baseFrame, targetFrame) + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->adjointWrenchDerivativeMap.find(label);
 
@@ -351,13 +356,13 @@ levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const
 
 levi::Expression ExpressionsServer::relativePosition(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativePositionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(3, 1);
         } else {
@@ -371,13 +376,13 @@ levi::Expression ExpressionsServer::relativePosition(const std::string &baseFram
 
 levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeQuaternionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(4,4).col(0);
         } else {
@@ -391,13 +396,13 @@ levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFr
 
 levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeRotationsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(3, 3);
         } else {
@@ -411,13 +416,13 @@ levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFram
 
 TransformExpression ExpressionsServer::relativeTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    TransformsMap::iterator element = m_pimpl->transformsMap.find(baseFrame+targetFrame);
+    TransformsMap::iterator element = m_pimpl->transformsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->transformsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, TransformExpression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         newElement.second = TransformExpression(relativePosition(baseFrame, targetFrame), relativeRotation(baseFrame, targetFrame));
         auto result = m_pimpl->transformsMap.insert(newElement);
         assert(result.second);
@@ -427,13 +432,13 @@ TransformExpression ExpressionsServer::relativeTransform(const std::string &base
 
 levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeJacobiansMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, m_pimpl->s.rows());
         } else {
@@ -447,13 +452,13 @@ levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &base
 
 levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->velocitiesMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, 1);
         } else {
@@ -533,7 +538,7 @@ levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFr
 
 levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "_" + std::to_string(parentLink) + "_" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMap.end()) {
@@ -555,7 +560,7 @@ levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex jo
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "_" + std::to_string(parentLink) + "_" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMatrixMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMatrixMap.end()) {
@@ -578,7 +583,7 @@ levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::Joint
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProductWrench(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "_" + std::to_string(parentLink) + "_" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesWrenchMap.find(label);
 
     if (element != m_pimpl->motionSubspacesWrenchMap.end()) {
-- 
2.43.0


From 3b61d22e0131cd3613b0cab6ae6274f9ee7e3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:12 +0000
Subject: [PATCH 29/36] fix: velocities of variables with the same name share
 one twist

---
 src/private/ExpressionsServer.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 39924b8..cf146ae 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -42,6 +42,7 @@ public:
     levi::Variable s, s_dot;
 
     levi::Expression baseTwist;
+    levi::Variable baseTwistVariable;
     TransformExpression worldToBase;
     levi::Expression comInBase;
     levi::Expression crbi;
@@ -59,6 +60,11 @@ public:
         return std::to_string(baseFrame.size()) + "_" + baseFrame + targetFrame;
     }
 
+    // Different variables may have the same name
+    static std::string variableLabel(const levi::Variable& variable) {
+        return std::to_string(reinterpret_cast<std::uintptr_t>(variable.evaluable().lock().get()));
+    }
+
     void clearDerivatives(ExpressionMap& map) {
         for (ExpressionMap::iterator it = map.begin(); it != map.end(); ++it) {
             it->second.clearDerivativesCache();
@@ -93,6 +99,8 @@ ExpressionsServer::ExpressionsServer(std::shared_ptr<TimelySharedKinDynComputati
 //    m_pimpl->baseTwist = BodyTwistFromQuaternionVelocity(m_pimpl->baseLinearVelocity, m_pimpl->baseQuaternionVelocity,
 //                                                         m_pimpl->quaternionNormalized, "baseTwist");
 
+    m_pimpl->baseTwistVariable = m_pimpl->baseTwist.asVariable();
+
     m_pimpl->worldToBase = TransformExpression(m_pimpl->basePositionExpr, m_pimpl->baseRotation);
     m_pimpl->comInBase = CoMInBaseExpression(this);
 
@@ -472,7 +480,7 @@ levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFram
 
 levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string key = targetFrame + baseTwist.name();
+    std::string key = targetFrame + "_" + Implementation::variableLabel(baseTwist);
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesMap.find(key);
 
     if (element != m_pimpl->absoluteVelocitiesMap.end()) {
@@ -493,12 +501,12 @@ levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFr
 
 levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFrame)
 {
-    return absoluteVelocity(targetFrame, baseTwist().asVariable());
+    return absoluteVelocity(targetFrame, m_pimpl->baseTwistVariable);
 }
 
 levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string label = targetFrame + baseTwist.name();
+    std::string label = targetFrame + "_" + Implementation::variableLabel(baseTwist);
 
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesDerivativeMap.find(label);
 
@@ -521,7 +529,7 @@ levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::
 levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFrame, const levi::Variable &desiredQuaternion)
 {
     // The same frame can be compared against different desired quaternions
-    std::string label = desiredFrame + "_" + std::to_string(reinterpret_cast<std::uintptr_t>(desiredQuaternion.evaluable().lock().get()));
+    std::string label = desiredFrame + "_" + Implementation::variableLabel(desiredQuaternion);
     ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(label);
 
     if (element != m_pimpl->quaternionsErrorsMap.end()) {
@@ -647,7 +655,7 @@ levi::Expression ExpressionsServer::compositeRigidBodyInertia()
 
 levi::Expression ExpressionsServer::momentumInBaseJointsDoubleDerivative(const levi::Variable &baseTwist, long column)
 {
-    std::string label = std::to_string(column);
+    std::string label = Implementation::variableLabel(baseTwist) + "_" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->momentumDoubleDerivativeMap.find(label);
 
-- 
2.43.0


From 1734239a76dbb1fa11e113b8b824a42c98acb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:26 +0000
Subject: [PATCH 30/36] fix: default initial forces ignore the gravity of the
 settings

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 332a2a9..897c1ed 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -75,7 +75,7 @@ bool FillDefaultInitialState(const Settings &inputSettings, const iDynTree::Vect
         totalMass += model.getLink(static_cast<iDynTree::LinkIndex>(l))->getInertia().getMass();
     }
 
-    double normalForce = totalMass * 9.81;
+    double normalForce = -totalMass * settings.gravity(2);
 
     for (size_t i = 0; i < settings.leftPointsPosition.size(); ++i) {
         initialState.leftContactPointsState[i].pointPosition = leftTransform * settings.leftPointsPosition[i];
-- 
2.43.0


From d9e58c639d737dbe1649bf5cefacc358e27d49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:26 +0000
Subject: [PATCH 31/36] fix: default initial forces are not a number when the
 feet and the center of mass are aligned

---
 src/Utilities.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 897c1ed..e035094 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -86,7 +86,14 @@ bool FillDefaultInitialState(const Settings &inputSettings, const iDynTree::Vect
     leftWrench.zero();
     rightWrench.zero();
 
-    leftWrench(2) = normalForce/(1 + std::fabs(initialState.comPosition(1) - leftTransform.getPosition()(1))/std::fabs(initialState.comPosition(1) - rightTransform.getPosition()(1)));
+    double leftDistance = std::fabs(initialState.comPosition(1) - leftTransform.getPosition()(1));
+    double rightDistance = std::fabs(initialState.comPosition(1) - rightTransform.getPosition()(1));
+
+    if (leftDistance + rightDistance > 0) {
+        leftWrench(2) = normalForce * rightDistance / (leftDistance + rightDistance);
+    } else { // The feet and the center of mass are aligned
+        leftWrench(2) = 0.5 * normalForce;
+    }
 
     rightWrench(2) = normalForce - leftWrench(2);
 
-- 
2.43.0


From 94cf71acc23d2e6c19a3fd1cd3bb424215aae170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:26 +0000
Subject: [PATCH 32/36] fix: out of range access in the default initial state
 with other than four contact points

---
 src/Utilities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index e035094..dc57a58 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -114,6 +114,12 @@ bool FillDefaultInitialState(const Settings &inputSettings, const iDynTree::Vect
         return false;
     }
 
+    if (leftPointForces.size() != settings.leftPointsPosition.size() || rightPointForces.size() != settings.rightPointsPosition.size())
+    {
+        std::cerr << "[ERROR][DynamicalPlanner::Utilities::FillDefaultInitialState] The number of contact points in the settings differs from the number of forces on each foot." <<std::endl;
+        return false;
+    }
+
     for (size_t i = 0; i < settings.leftPointsPosition.size(); ++i) {
         initialState.leftContactPointsState[i].pointForce = leftPointForces[i];
         initialState.rightContactPointsState[i].pointForce =rightPointForces[i];
-- 
2.43.0


From 8691e2643dcb470352459ab85fa357e80b5ab769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:21 +0000
Subject: [PATCH 33/36] fix: names of compiled expressions are cleaned into
 valid C++ identifiers

---
 extern/levi/include/levi/AutogeneratedHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index da6a03f..8ffd914 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -555,7 +555,7 @@ public:
             if (letter == ' ') {
                 letter = '_';
             } else if (!(((letter >= 'a') && (letter <= 'z')) || ((letter >= 'A') && (letter <= 'Z')) || ((letter >= '0') && (letter <= '9')))) {
-                letter = '-';
+                letter = '_';
             }
         }
 
-- 
2.43.0


From d3967cc4fbf56a2211728310b700a5043ce55daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:21 +0000
Subject: [PATCH 34/36] fix: compiled expressions keep the precedence of
 divisions

---
 extern/levi/include/levi/AutogeneratedHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 8ffd914..a7d3202 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -185,7 +185,7 @@ private:
 
         } else if (type == Type::Division) {
 
-            literalSubExpr.literal = lhs.literal + " / " + rhs.literal;
+            literalSubExpr.literal = "(" + lhs.literal + " / (" + rhs.literal + "))";
             literalSubExpr.isScalar = lhs.isScalar;
             literalSubExpr.isSimple = false;
 
-- 
2.43.0


From 1f5790c34491b34094afd5a5fcc6f33c13c5928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:21 +0000
Subject: [PATCH 35/36] fix: compiled expressions keep all the digits of
 exponents

---
 extern/levi/include/levi/AutogeneratedHelper.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index a7d3202..2da62db 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -19,6 +19,8 @@
 #include <shlibpp/SharedLibrary.h>
 
 #include <ostream>
+#include <iomanip>
+#include <limits>
 #include <cstdlib>
 
 #include <fstream>
@@ -199,7 +201,9 @@ private:
 
         } else if (type == Type::Pow) {
 
-            literalSubExpr.literal = "std::pow(" + lhs.literal +", " + std::to_string(subExpr.exponent) + ")";
+            std::ostringstream exponent;
+            exponent << std::setprecision(std::numeric_limits<double>::max_digits10) << subExpr.exponent;
+            literalSubExpr.literal = "std::pow(" + lhs.literal +", " + exponent.str() + ")";
             literalSubExpr.isScalar = true;
             literalSubExpr.isSimple = false;
 
@@ -425,7 +429,8 @@ private:
 
         while (currentindex < expression.size()) {
 
-            if (expression[currentindex] == '+' || expression[currentindex] == '-' || expression[currentindex] == '*') {
+            if ((expression[currentindex] == '+' || expression[currentindex] == '-' || expression[currentindex] == '*') &&
+                expression[currentindex + 1] == ' ') { //the signs not followed by a space can be part of a number
                 lastStopCharachter = currentindex;
             }
 
-- 
2.43.0


From 9c04d166da4968aaa4a31f285967054430a7bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:21 +0000
Subject: [PATCH 36/36] fix: blocks of scalars can be compiled

---
 extern/levi/include/levi/AutogeneratedHelper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 2da62db..0f3d54f 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -255,7 +255,13 @@ private:
 
         } else if (type == Type::Block) {
 
-            assert(!lhs.isScalar);
+            if (lhs.isScalar) { //the only possible block is the scalar itself
+                literalSubExpr.literal = lhs.literal;
+                literalSubExpr.isScalar = true;
+                literalSubExpr.isSimple = lhs.isSimple;
+                return;
+            }
+
             literalSubExpr.literal = "(" + lhs.literal + ").block<" + std::to_string(subExpr.block.rows) + ", " + std::to_string(subExpr.block.cols) + ">(" + std::to_string(subExpr.block.startRow) + ", " + std::to_string(subExpr.block.startCol) + ")";
             literalSubExpr.isScalar = false;
             literalSubExpr.isSimple = true;
-- 
2.43.0

