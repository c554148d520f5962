From b2f65bc10f42c6022f48570c627ec59fcb2bf2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 01/62] fix: TsHsMsgQueue::removeMsg checks for an empty queue
 while holding the lock

Two threads draining the queue could both see the last message and the second
one then removed a message that was not there.
---
 ms-utils/simulation/hs/TsHsMsgQueue.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgQueue.cpp b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
index 685917a..7af60f4 100644
--- a/ms-utils/simulation/hs/TsHsMsgQueue.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
@@ -222,11 +222,15 @@ void TsHsMsgQueue::insertMsg(TsHsMsgQueueNode& node)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 bool TsHsMsgQueue::removeMsg(TsHsMsgQueueNode& node)
 {
-    // Return false if the the queue is empty
+    pthread_mutex_lock(&mMutex);
+
+    // Return false if the the queue is empty. This must be checked while holding the lock, since
+    // another thread may be removing the last message.
     if (isEmpty())
+    {
+        pthread_mutex_unlock(&mMutex);
         return false;
-
-    pthread_mutex_lock(&mMutex);
+    }
 
     // Copy message at head of queue to return node
     node.mFile      = mHead->mFile;
-- 
2.43.0


From c079f5d34cc22119e77648d268f75a394d61dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/62] fix: TsHsMsgQueue counts lock failures atomically

Threads that fail to get the lock at the same time lost counts of skipped messages.
---
 ms-utils/simulation/hs/TsHsMsgQueue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgQueue.cpp b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
index 7af60f4..1955d96 100644
--- a/ms-utils/simulation/hs/TsHsMsgQueue.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgQueue.cpp
@@ -167,7 +167,8 @@ void TsHsMsgQueue::insertMsg(
     {
         if (pthread_mutex_trylock(&mMutex) != 0) // non-0 means lock failed
         {
-            mTryLockFailures++;
+            // This thread doesn't hold the lock, so count atomically.
+            __sync_fetch_and_add(&mTryLockFailures, 1);
             return;
         }
     }
-- 
2.43.0


From ecd31e8bda9dded51bd479058f0584c4c4f3fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 03/62] fix: Gunns rebuilds the admittance matrix when the
 solver mode changes

The matrix is rebuilt but not decomposed in DUMMY and SLAVE modes, so returning to NORMAL could solve on
an un-decomposed matrix.
---
 core/Gunns.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..273e2ba 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1100,6 +1100,10 @@ void Gunns::checkStepInputs()
 {
     if (mLastSolverMode != mSolverMode) {
         mLastSolverMode  = mSolverMode;
+
+        /// - The admittance matrix isn't decomposed in the DUMMY & SLAVE modes, so force a rebuild to
+        ///   avoid solving on a matrix that was built but not decomposed in the previous mode.
+        mRebuild         = true;
         GUNNS_INFO("solver mode changed to " << getSolverModeString() << ".");
     }
 
-- 
2.43.0


From 331377859d490c7e25dca9a20955b697da856f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 04/62] fix: Gunns finds islands when the island mode changes

Islands were only found at the next admittance change, so the nodes had stale islands until then.
---
 core/Gunns.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index 273e2ba..878b63b 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -1109,6 +1109,10 @@ void Gunns::checkStepInputs()
 
     if (mLastIslandMode != mIslandMode) {
         mLastIslandMode  = mIslandMode;
+
+        /// - Islands are only found when the admittance matrix is rebuilt, so force a rebuild to find
+        ///   them in the new mode.
+        mRebuild         = true;
         GUNNS_INFO("island mode changed to " << getIslandModeString() << ".");
     }
 
-- 
2.43.0


From 4e780e61899e40f9e55cd96a8e68a7b9a0f93ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 05/62] fix: Gunns rebuilds the admittance matrix after a
 failed decomposition

When the decomposition limit or a numerical exception stopped the decomposition, following steps solved
on the un-decomposed matrix until the next admittance change.
---
 core/Gunns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index 878b63b..c0cf38e 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -796,7 +796,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -996,6 +995,9 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
             ///   save CPU time.  This is by far the biggest CPU hog in GUNNS.  For a 400 node network,
             ///   90% of CPU time is spent in this method.
             if (NORMAL == mSolverMode) {
+                /// - Keep the rebuild flag set until the decomposition succeeds, so that when it fails
+                ///   the next solution doesn't use the un-decomposed matrix.
+                mRebuild = true;
                 if (mDecompositionLimit > mLastDecomposition) {
                     result = 1;
                     mLastDecomposition++;
@@ -1040,6 +1042,7 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
                     throw TsOutOfBoundsException("Iteration Limit Exceeded", "Gunns",
                                                  "decomposition limit exceeded.");
                 }
+                mRebuild = false;
             }
         }
         /// - Solve the system of equations.  The result of this is a new potential vector.  This is
-- 
2.43.0


From ae3524a5464361e42099f69c5c051b596f1cdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 06/62] fix: Gunns rebuilds the admittance matrix after solving
 with SOR

SOR leaves the matrix un-decomposed, and a following Cholesky solution used it as if it was.
---
 core/Gunns.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index c0cf38e..9daceab 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -980,6 +980,9 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
             resetToMinorPotentialVector();
             mSorFailCount++;
             GUNNS_WARNING("SOR failed to converge, reverting to Cholesky this step.");
+        } else {
+            /// - SOR leaves the matrix un-decomposed, so it must be rebuilt for the next Cholesky.
+            mRebuild = true;
         }
     }
     //do cholesky if SOR either failed to converge or isn't being attempted.
-- 
2.43.0


From da5c78ed337724fc6367893781cbde9719687754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 07/62] fix: link restart restores the default port mapping

A port could be refused its default node because another port, itself to be restored, was still on it.
---
 core/GunnsBasicLink.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/GunnsBasicLink.cpp b/core/GunnsBasicLink.cpp
index b83f21b..aedebb8 100755
--- a/core/GunnsBasicLink.cpp
+++ b/core/GunnsBasicLink.cpp
@@ -291,6 +291,16 @@ void GunnsBasicLink::initialize(const GunnsBasicLinkConfigData& configData,
 void GunnsBasicLink::restart()
 {
     initializeRestartCommonFunctions();
+
+    /// - Move any ports that aren't on their default node to Ground first, so that they don't prevent
+    ///   other ports from returning to theirs by the port duplication rule.
+    if (not mNodeMapLocked) {
+        for (int port = 0; port < mNumPorts; ++port) {
+            if (mNodeMap[port] != mDefaultNodeMap[port]) {
+                mNodeMap[port] = getGroundNodeIndex();
+            }
+        }
+    }
     registerNodes(mDefaultNodeMap, "restart", true);
     restartModel();
 }
-- 
2.43.0


From 9fb685ed4ab5851c8444df12fbf126cc7536ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 08/62] fix: GunnsFluidLink ignores invalid port numbers when
 updating node pointers

setPort with an invalid port number wrote outside the node pointer array.
---
 core/GunnsFluidLink.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidLink.cpp b/core/GunnsFluidLink.cpp
index eef599b..fad2949 100755
--- a/core/GunnsFluidLink.cpp
+++ b/core/GunnsFluidLink.cpp
@@ -351,8 +351,10 @@ const PolyFluid* GunnsFluidLink::getNodeContent(const int port) const
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidLink::updateNodePointer(const int port)
 {
-    GunnsFluidNode* fluidNodes = static_cast<GunnsFluidNode*> (mNodeList->mNodes);
-    mNodes[port] = &fluidNodes[mNodeMap[port]];
+    if (checkValidPortNumber(port)) {
+        GunnsFluidNode* fluidNodes = static_cast<GunnsFluidNode*> (mNodeList->mNodes);
+        mNodes[port] = &fluidNodes[mNodeMap[port]];
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From fcf89776001f22bff4d13ff39f4b753a0fe145b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 09/62] fix: restart of a super-network connects its joints
 again

The solver restart returns every link to its default ports, which disconnected the joined sub-networks.
---
 core/network/GunnsSuperNetworkBase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/network/GunnsSuperNetworkBase.cpp b/core/network/GunnsSuperNetworkBase.cpp
index 377ad54..f752d32 100755
--- a/core/network/GunnsSuperNetworkBase.cpp
+++ b/core/network/GunnsSuperNetworkBase.cpp
@@ -431,6 +431,12 @@ void GunnsSuperNetworkBase::restart()
     try {
         netSolver.restart();
 
+        /// - The solver restart has returned the links to their default ports, so make the connections to
+        ///   the joint networks again, as in initialize.
+        for (unsigned int i=0; i<numJoints; ++i) {
+            mJoints[i]->join(mJoints[i]->network->getNodeOffset());
+        }
+
     } catch (const std::exception& e) {
         /// - Send an H&S error message and return on unexpected exception derived from std::exception.
         TsHsMsg msg(TS_HS_ERROR, "GUNNS");
-- 
2.43.0


From 0a3b7e0515c65da874918464e7e28b1515a1ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 10/62] fix: locking a GunnsMutexLock that is already locked
 does not deadlock

---
 core/network/GunnsMutexLock.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/network/GunnsMutexLock.hh b/core/network/GunnsMutexLock.hh
index 45c6e07..01f1add 100644
--- a/core/network/GunnsMutexLock.hh
+++ b/core/network/GunnsMutexLock.hh
@@ -58,8 +58,11 @@ public:
 
     void lock()
     {
-        pthread_mutex_lock(&myMutex);
-        isLocked = true;
+        if(!isLocked)
+        {
+            pthread_mutex_lock(&myMutex);
+            isLocked = true;
+        }
     }
     
     void unlock() 
-- 
2.43.0


From edb4efc7a99c02a61a4f478e27744c2f4c9239f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 11/62] fix: CholeskyLdu::Decompose honours positive
 off-diagonal terms

---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index 46bb1ca..f245657 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -79,7 +79,7 @@ void CholeskyLdu::Decompose(double *A, int n)
             const double limit = -1.0E-100;
             for (int k = 0; k < j; k++) {
                 /// - Skip operations on zero to save time.
-                if (limit > *(p_i + k) and limit > *(p_j + k)) {
+                if (std::fabs(*(p_i + k)) > -limit and std::fabs(*(p_j + k)) > -limit) {
                     *(p_i + j) -= *(p_i + k) * *(p_j + k);
                 }
             }
@@ -158,7 +158,7 @@ void CholeskyLdu::Decompose(double *A, int n, std::vector<int>& r)
             double *p_j_k = p_j;
             for (int k = 0; k < j; k++, p_i_k += vrk[k], p_j_k += vrk[k]) {
                 /// - Skip operations on zero to save time.
-                if (limit > *(p_i_k) and limit > *(p_j_k)) {
+                if (std::fabs(*(p_i_k)) > -limit and std::fabs(*(p_j_k)) > -limit) {
                     *(p_i_j) -= *(p_i_k) * *(p_j_k);
                 }
             }
-- 
2.43.0


From 9f1e64fc0091c1ed22b49b0630eaa4b845128aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 12/62] fix: Distributed2WayBusFluid keeps track of a remote
 takeover while its role is forced

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index bf1fad6..42ddd97 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -539,6 +539,11 @@ void Distributed2WayBusFluid::flipModesOnInput()
                 flipToDemandMode();
             }
         }
+    }
+    /// - A takeover that a forced role kept us from answering is still to be answered when the force
+    ///   is reset, otherwise both sides would stay in demand mode.
+    if (mInData.hasValidData() and
+            not (mOutData.mDemandMode and mInData.mDemandMode and not mInDataLastDemandMode)) {
         mInDataLastDemandMode = mInData.mDemandMode;
     }
 }
-- 
2.43.0


From 6cddc59d6264232d0a40429459958e3dfe99625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 13/62] fix: Distributed2WayBusElect resolves both sides being
 in the Supply role

---
 ms-utils/interop/Distributed2WayBusElect.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ms-utils/interop/Distributed2WayBusElect.cpp b/ms-utils/interop/Distributed2WayBusElect.cpp
index a2a607a..4e315a0 100755
--- a/ms-utils/interop/Distributed2WayBusElect.cpp
+++ b/ms-utils/interop/Distributed2WayBusElect.cpp
@@ -140,6 +140,8 @@ void Distributed2WayBusElect::update(const float localVoltage, const float local
             ///   - If we are in Supply and our highest available local supply voltage < remote's
             ///     supply voltage, then we switch to Demand.  This keeps the Supply role on the
             ///     side with the higher available local supply voltage.
+            ///   - If we are in Supply and the remote side stays in Supply too (as after roles have been
+            ///     forced), then the side that isn't the primary switches to Demand.
             /// - Wait and only do mode changes when we have valid data from other side.
             if (mInData.mFrameLoopback > 0) {
                 if (mOutData.mDemandMode) {
@@ -156,6 +158,11 @@ void Distributed2WayBusElect::update(const float localVoltage, const float local
                         std::ostringstream msg;
                         msg << "flipping to Demand role with available V: " << availV << " < remote V: " << mInData.mSupplyVoltage << ".";
                         pushNotification(Distributed2WayBusNotification::INFO, msg.str());
+                    } else if (not mIsPairMaster and not mInData.mDemandMode and (mFramesSinceFlip > mLoopLatency)) {
+                        mOutData.mDemandMode = true;
+                        mFramesSinceFlip     = 0;
+                        pushNotification(Distributed2WayBusNotification::INFO,
+                                "flipping to Demand role because the remote primary side is also in the Supply role.");
                     }
                 }
             }
-- 
2.43.0


From 736b3dc4b5daaf64c96f6042a39aa84199357108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 14/62] fix: GunnsElectSwitchUtil2 opens a tripped switch when
 a failed-closed malfunction ends

---
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index c8a11f6..21540ab 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -287,7 +287,9 @@ void GunnsElectSwitchUtil2::updateState()
         mPosition = true;
     } else if (mMalfFailOpen) {
         mPosition = false;
-    } else if (not (isTripped() or isWaitingToTrip())) {
+    } else if (isTripped()) {
+        mPosition = false;
+    } else if (not isWaitingToTrip()) {
         mPosition = mPositionCommand;
     }
 }
-- 
2.43.0


From b6ddd7c1c2ec45c54fba963010b8eb9d2fd55fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 15/62] fix: GunnsElectSwitchUtil2 stays open on a voltage trip
 reset while another trip is active

---
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index 21540ab..eebbb86 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -348,7 +348,7 @@ void GunnsElectSwitchUtil2::updateTrips(const double current, const double volta
                 /// - Upon reset of the voltage trip, the switch automatically closes if it is
                 ///   still commanded to close.  This feature can be avoided by the user resetting
                 ///   the position command to open whenever the switch trips open.
-                if (mPositionCommand) {
+                if (mPositionCommand and not isTripped()) {
                     mPosition = true;
                 }
             }
-- 
2.43.0


From 251b526fce16f45cfd7f3ee93b5cab4a0c6a8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 16/62] fix: round sensor and quantized values without
 overflowing int, and asinh of large negative values

---
 gunns-ts-models/common/sensors/SensorAnalog.cpp | 2 +-
 ms-utils/math/MsMath.hh                         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gunns-ts-models/common/sensors/SensorAnalog.cpp b/gunns-ts-models/common/sensors/SensorAnalog.cpp
index 79359a1..b331f00 100755
--- a/gunns-ts-models/common/sensors/SensorAnalog.cpp
+++ b/gunns-ts-models/common/sensors/SensorAnalog.cpp
@@ -527,6 +527,6 @@ void SensorAnalog::applyResolution()
     value = std::fabs(value);
 
     if (value > FLT_EPSILON) {
-        mSensedOutput = value * MsMath::round(mSensedOutput/value);
+        mSensedOutput = value * static_cast<float>(std::floor(static_cast<double>(mSensedOutput/value) + 0.5));
     }
 }
diff --git a/ms-utils/math/MsMath.hh b/ms-utils/math/MsMath.hh
index 268e76e..5675381 100755
--- a/ms-utils/math/MsMath.hh
+++ b/ms-utils/math/MsMath.hh
@@ -631,7 +631,7 @@ inline double MsMath::quantize(const double input, const double resolution)
 {
     double result = input;
     if (DBL_EPSILON < resolution) {
-        result = resolution * round(input / resolution);
+        result = resolution * std::floor(input / resolution + 0.5);
     }
 
     return result;
@@ -653,7 +653,8 @@ inline double MsMath::quantize(const double input, const double resolution)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline double MsMath::asinh(const double value)
 {
-    return  MsMath::protectedLog(value + std::sqrt(value * value + 1.0));
+    const double result = MsMath::protectedLog(std::fabs(value) + std::sqrt(value * value + 1.0));
+    return value < 0.0 ? -result : result;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e18ba9848f7fc9c4a5438f1c25db8575397b9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 17/62] fix: fluid leak recomputes the conductivity of its leak
 rate after a hole malfunction overrode it

---
 aspects/fluid/conductor/GunnsFluidLeak.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/conductor/GunnsFluidLeak.cpp b/aspects/fluid/conductor/GunnsFluidLeak.cpp
index 8a8c06d..f90cf2e 100644
--- a/aspects/fluid/conductor/GunnsFluidLeak.cpp
+++ b/aspects/fluid/conductor/GunnsFluidLeak.cpp
@@ -233,6 +233,7 @@ inline void GunnsFluidLeak::updateState(const double dt __attribute__((unused)))
             mLeakConductivity  = mMalfLeakHoleValue;
             mPreviousLeakHole  = mMalfLeakHoleValue;
         }
+        mPreviousLeakRate      = 0.0;
         mEffectiveConductivity = mLeakConductivity;
     } else if (mMalfLeakRateFlag) {
         /// - For leak rate malfunction, compute leak conductivity once on malfunction activation
@@ -241,6 +242,7 @@ inline void GunnsFluidLeak::updateState(const double dt __attribute__((unused)))
             updateLeakConductance();
             mPreviousLeakRate  = mMalfLeakRateValue;
         }
+        mPreviousLeakHole      = 0.0;
         mEffectiveConductivity = mLeakConductivity;
     } else {
         /// - For no active malfunctions, zero out effective conductivity.
-- 
2.43.0


From 332527413602b97e19ac3956a9301092d136c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 18/62] fix: three-way check valve opens path B over its own
 open pressure

---
 aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
index 1d58309..c3a28ab 100644
--- a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
+++ b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
@@ -304,7 +304,7 @@ double GunnsFluid3WayCheckValve::calculateValvePosition()
         /// - Greater potential drop across B, position less than 0.5
         position = MsMath::limitRange(0.0,
                                     0.5 * (1 - (pressureB - pressureA - mMinPressureDiff)
-                                             / (mOpenPressureA - mMinPressureDiff)),
+                                             / (mOpenPressureB - mMinPressureDiff)),
                                     0.5);
     }
 
-- 
2.43.0


From 48fe1e90cbeea91f1a32d1b0eabec05ccae0c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 19/62] fix: pressure reducing valve compares its back pressure
 cut-off reset with the pressure it regulates to

---
 aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp b/aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp
index 5cc6ed4..099f07b 100755
--- a/aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp
+++ b/aspects/fluid/conductor/GunnsFluidBalancedPrv.cpp
@@ -222,18 +222,18 @@ void GunnsFluidBalancedPrv::step(const double dt)
     /// - Process user commands to dynamically re-map ports.
     processUserPortCommand();
 
-    /// - Cut-off to prevent backflow.
-    if (mPotentialVector[1] > mPotentialVector[0]) {
-        mBackPressureCutoff = true;
-    } else if (mPotentialVector[1] < mPressureSetpoint) {
-        mBackPressureCutoff = false;
-    }
-
     /// - Find the actual pressure being regulated to.
     mRegulatedPressure = mPressureSetpoint + mPotentialVector[2];
     if (mMalfPressureBiasFlag) {
         mRegulatedPressure += mMalfPressureBiasValue;
     }
+
+    /// - Cut-off to prevent backflow, until the exit falls below the pressure being regulated to.
+    if (mPotentialVector[1] > mPotentialVector[0]) {
+        mBackPressureCutoff = true;
+    } else if (mPotentialVector[1] < mRegulatedPressure) {
+        mBackPressureCutoff = false;
+    }
     mRegulatedPressure = std::min(mRegulatedPressure, mPotentialVector[0]);
 
     double flt_epsilon = static_cast<double>(FLT_EPSILON);
-- 
2.43.0


From 54b81244d9fa798d1b45c3f70b5f9188f53fbd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 20/62] fix: electrical converter output held its power invalid
 forever when a rejected step converged at once

---
 .../electrical/Converter/GunnsElectConverterInput.hh | 12 ++++++++++++
 .../Converter/GunnsElectConverterOutput.hh           |  9 ++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterInput.hh b/aspects/electrical/Converter/GunnsElectConverterInput.hh
index b49f8c3..7a66065 100755
--- a/aspects/electrical/Converter/GunnsElectConverterInput.hh
+++ b/aspects/electrical/Converter/GunnsElectConverterInput.hh
@@ -124,6 +124,8 @@ class GunnsElectConverterInput : public GunnsBasicLink
         double getInputVoltage() const;
         /// @brief  Returns the input voltage valid flag.
         bool getInputVoltageValid() const;
+        /// @brief  Returns the input power valid flag.
+        bool getInputPowerValid() const;
         /// @brief  Returns the input under-voltage trip logic.
         GunnsTripLogic* getInputUnderVoltageTrip();
         /// @brief  Returns the input over-voltage trip logic.
@@ -325,6 +327,16 @@ inline bool GunnsElectConverterInput::getInputVoltageValid() const
     return mInputVoltageValid;
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @returns  bool  (--)  Whether the input channel power load value last used was valid.
+///
+/// @details  Returns the value of mInputPowerValid.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+inline bool GunnsElectConverterInput::getInputPowerValid() const
+{
+    return mInputPowerValid;
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @returns  GunnsTripLogic*  (--)  Pointer to the input under-voltage trip logic.
 ///
diff --git a/aspects/electrical/Converter/GunnsElectConverterOutput.hh b/aspects/electrical/Converter/GunnsElectConverterOutput.hh
index 82e40b3..2a53b7e 100755
--- a/aspects/electrical/Converter/GunnsElectConverterOutput.hh
+++ b/aspects/electrical/Converter/GunnsElectConverterOutput.hh
@@ -538,11 +538,18 @@ inline bool GunnsElectConverterOutput::isVoltageRegulator() const
 ///           potential vector to the previous value, and this becomes out of sync with our inputs
 ///           to the system of equations, so any calculation of flux and power based on those values
 ///           may be incorrect.
+///
+/// @note     When the input link rejected the last minor step because our power was invalid, then
+///           that step converged on unchanged potentials and we leave our power as it was found by
+///           confirmSolutionAcceptable.  Otherwise we would hold our power invalid and the input
+///           link would reject every minor step for as long as the potentials don't change.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline bool GunnsElectConverterOutput::resetLastMinorStep(const int convergedStep __attribute__((unused)),
                                                           const int absoluteStep __attribute__((unused)))
 {
-    mInputPowerValid = false;
+    if (not mInputLink or mInputLink->getInputPowerValid()) {
+        mInputPowerValid = false;
+    }
     return true;
 }
 
-- 
2.43.0


From be4d2158b65ac5840298018a33249d26901dc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 21/62] fix: battery left cells in thermal runaway when the
 malfunction ended just as its interval timer had wrapped

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 031cb64..6479bb4 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -258,7 +258,7 @@ void GunnsElectBattery::updateState(const double timeStep __attribute__((unused)
             mThermalRunawayCell++;
         }
     } else {
-        if (mThermalRunawayTimer > 0.0) {
+        if (mThermalRunawayTimer > 0.0 or mThermalRunawayCell > 0) {
             /// - On removal of this malfunction, shut off all the cell's malfunctions.  We only
             ///   do this on the first pass after the malf is removed, so as to not interfere with
             ///   individual cell's malf used at other times.
-- 
2.43.0


From 04e0dac644f125d492d13cf1f90adc8b9d505729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 22/62] fix: a battery cell discharged to zero never took
 charge again

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 6479bb4..c117c79 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -374,10 +374,13 @@ void GunnsElectBattery::updateFlux(const double timeStep, const double flux __at
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsElectBattery::updateCells(const double timeStep)
 {
-    /// - Count the number of cells contributing to the load.
+    /// - Count the number of cells contributing to the load, or taking charge when charging.  Cells
+    ///   with no charge left can't contribute to the load but can still be charged.
+    const bool charging = mFlux < 0.0;
     int count = 0;
     for (unsigned int i = 0; i < mNumCells; i++) {
-        if (mCells[i].getEffectiveSoc() > DBL_EPSILON) {
+        if (mCells[i].getEffectiveSoc() > DBL_EPSILON or
+                (charging and mCells[i].getEffectiveCapacity() > DBL_EPSILON)) {
             count++;
         }
     }
-- 
2.43.0


From 783c2c254f5e96d9c7c4a76b9ce5b368087b7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 23/62] fix: ignore-current-trip malfunction left switch
 over-current protection off after it was cleared

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp | 6 ++++--
 aspects/electrical/Switch/Switch.cpp               | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index e227251..e2fd442 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -398,9 +398,11 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
     // block/ignore current trips only when malf active other wise take the value from the signal ICD.
     if (mMalfIgnoreCurrentTrip) {
         mOverCurrentProtection = false;
-    } else {
-        // go back to whatever the signal aspect sends over the ICD
+    } else if (mLastMalfIgnoreCurrentTrip) {
+        // go back to the configured protection when the malf is removed, after which the signal aspect may change it over the ICD
+        mOverCurrentProtection = mConfigDataCurrentProtection;
     }
+    mLastMalfIgnoreCurrentTrip = mMalfIgnoreCurrentTrip;
 
     // sanity check for minimum switch resistance, if someone changes it directly
     if (mDefaultSwitchResistance <= 0.0) {
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index d8d5676..f4a1eea 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -392,9 +392,11 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
     // block/ignore current trips only when malf active other wise take the value from the signal ICD.
     if (mMalfIgnoreCurrentTrip) {
         mOverCurrentProtection = false;
-    } else {
-        // go back to whatever the signal aspect sends over the ICD
+    } else if (mLastMalfIgnoreCurrentTrip) {
+        // go back to the configured protection when the malf is removed, after which the signal aspect may change it over the ICD
+        mOverCurrentProtection = mConfigDataCurrentProtection;
     }
+    mLastMalfIgnoreCurrentTrip = mMalfIgnoreCurrentTrip;
 
     // sanity check for minimum switch resistance, if someone changes it directly
     if (mDefaultSwitchResistance <= 0.0) {
-- 
2.43.0


From 2c367d3e7fe5af1d21092a8e3ff2eafe5260615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 24/62] fix: tripped switch stayed closed after its fail-closed
 malfunction was cleared

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp | 3 +++
 aspects/electrical/Switch/Switch.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index e2fd442..309a062 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -422,6 +422,9 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a tripped switch doesn't stay closed when its fail-closed malfunction is removed
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index f4a1eea..89e6626 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -416,6 +416,9 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a tripped switch doesn't stay closed when its fail-closed malfunction is removed
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
-- 
2.43.0


From cfc017ec5a3d6ea466cef527492651a347859bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 25/62] fix: initial power and current shorts with negative
 values were recomputed every pass instead of latching

---
 aspects/electrical/resistive/GunnsShortUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/resistive/GunnsShortUtil.cpp b/aspects/electrical/resistive/GunnsShortUtil.cpp
index 93d6340..d879d9b 100755
--- a/aspects/electrical/resistive/GunnsShortUtil.cpp
+++ b/aspects/electrical/resistive/GunnsShortUtil.cpp
@@ -183,12 +183,12 @@ double GunnsShortUtil::computeShort(const double voltage)
 
     /// - Update or reset initial power and current latching terms.
     if (mMalfInitialPowerFlag) {
-        mPreviousPower = mMalfInitialPowerValue;
+        mPreviousPower = std::fabs(mMalfInitialPowerValue);
     } else {
         mPreviousPower = 0.0;
     }
     if (mMalfInitialCurrentFlag) {
-        mPreviousCurrent = mMalfInitialCurrentValue;
+        mPreviousCurrent = std::fabs(mMalfInitialCurrentValue);
     } else {
         mPreviousCurrent = 0.0;
     }
-- 
2.43.0


From dc739108c15ad5c25fd04ce71e7ea3bd7d8b2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 26/62] fix: radiation between nearly equal temperatures used a
 conductance made of rounding error

---
 aspects/thermal/GunnsThermalRadiation.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aspects/thermal/GunnsThermalRadiation.cpp b/aspects/thermal/GunnsThermalRadiation.cpp
index 608584f..187bceb 100755
--- a/aspects/thermal/GunnsThermalRadiation.cpp
+++ b/aspects/thermal/GunnsThermalRadiation.cpp
@@ -197,10 +197,11 @@ void GunnsThermalRadiation::updateState(const double dt __attribute__((unused)))
     ///   used for tolerance comparison.
     if (std::fabs(mPotentialVector[0] - mPotentialVector[1]) > DBL_EPSILON)
     {
-        /// - Admittance is calculated per the above comment block.
-        const double T0_4 = mPotentialVector[0] * mPotentialVector[0] * mPotentialVector[0] * mPotentialVector[0];
-        const double T1_4 = mPotentialVector[1] * mPotentialVector[1] * mPotentialVector[1] * mPotentialVector[1];
-        mEffectiveConductivity = mViewScalar * mDefaultConductivity * (T0_4 - T1_4)
-                               / (mPotentialVector[0] - mPotentialVector[1]);
+        /// - Admittance is calculated per the above comment block, with (T0 - T1) divided out so
+        ///   that nearly equal temperatures don't lose precision.
+        const double T0_2 = mPotentialVector[0] * mPotentialVector[0];
+        const double T1_2 = mPotentialVector[1] * mPotentialVector[1];
+        mEffectiveConductivity = mViewScalar * mDefaultConductivity * (T0_2 + T1_2)
+                               * (mPotentialVector[0] + mPotentialVector[1]);
     }
 }
-- 
2.43.0


From dd928fff65e98fcbb8f8ee7beca0468500022847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 27/62] fix: the initial temperature override of a thermal
 capacitor held its initial temperature instead of the override value

---
 aspects/thermal/GunnsThermalCapacitor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aspects/thermal/GunnsThermalCapacitor.cpp b/aspects/thermal/GunnsThermalCapacitor.cpp
index da58761..8741554 100755
--- a/aspects/thermal/GunnsThermalCapacitor.cpp
+++ b/aspects/thermal/GunnsThermalCapacitor.cpp
@@ -158,6 +158,7 @@ void GunnsThermalCapacitor::initialize(const GunnsThermalCapacitorConfigData& co
     /// - Initialize from input data.
     if (inputData.iTemperatureOverrideFlag) {
         setPortOverride(0, inputData.iTemperatureOverrideValue);
+        mNodes[0]->setPotential(inputData.iTemperatureOverrideValue);
     }
 
     /** Set init flag on successful validation. */
-- 
2.43.0


From c95092671778a841438ef4539281a0da8e8f70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 28/62] fix: thermal panel with zero absorptivity or area put
 NaN into the network

---
 aspects/thermal/GunnsThermalPanel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aspects/thermal/GunnsThermalPanel.cpp b/aspects/thermal/GunnsThermalPanel.cpp
index ee63732..fc15b36 100755
--- a/aspects/thermal/GunnsThermalPanel.cpp
+++ b/aspects/thermal/GunnsThermalPanel.cpp
@@ -150,7 +150,10 @@ void GunnsThermalPanel::initialize(const GunnsThermalPanelConfigData& configData
     mSurfaceArea = configData.cSurfaceArea;
 
     /// - Set mIncidentHeatFluxPerArea, nominally set by the SimBus, to an initial value.
-    mIncidentHeatFluxPerArea = mDemandedFlux / (mAbsorptivity * mSurfaceArea);
+    mIncidentHeatFluxPerArea = 0.0;
+    if (mAbsorptivity * mSurfaceArea > 0.0) {
+        mIncidentHeatFluxPerArea = mDemandedFlux / (mAbsorptivity * mSurfaceArea);
+    }
 
     /// - Set init flag on successful validation.
     mInitFlag = true;
-- 
2.43.0


From 8ed5cf51e178479eaf795a02c8dbd59aff3297da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 29/62] fix: fluid distributed interface in supply role ignored
 the energy of the fluid flowing back from the demand side

---
 core/GunnsFluidDistributedIf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidDistributedIf.cpp b/core/GunnsFluidDistributedIf.cpp
index 0a9392b..61e657b 100755
--- a/core/GunnsFluidDistributedIf.cpp
+++ b/core/GunnsFluidDistributedIf.cpp
@@ -456,9 +456,9 @@ double GunnsFluidDistributedIf::inputFluid(const double pressure, PolyFluid* flu
     fluid->setPressure(pressure);
 
     if (mUseEnthalpy) {
-        fluid->setTemperature(fluid->computeTemperature(mWorkFluidState.mEnergy));
+        fluid->setTemperature(fluid->computeTemperature(workingState->mEnergy));
     } else {
-        fluid->setTemperature(mWorkFluidState.mEnergy);
+        fluid->setTemperature(workingState->mEnergy);
     }
 
     if (mWorkFluidState.mTcMoleFractions) {
-- 
2.43.0


From 6f2aec7e631da0d2192e7e187ec07df516d49b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 30/62] fix: distributed 2-way fluid bus side forced to supply
 sent zero pressure after a rejected capacitance flip

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index 42ddd97..8ddb7c9 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -561,8 +561,11 @@ void Distributed2WayBusFluid::flipModesOnCapacitance()
         flipToDemandMode();
         /// - Zero the output pressure/flow source term so the other side doesn't interpret our old
         ///   pressure value as a demand flux.  This will be set to a demand flux on the next full
-        ///   pass in demand mode.
-        mOutData.mSource = 0.0;
+        ///   pass in demand mode.  When a forced role keeps us in supply mode, our output is still
+        ///   our pressure.
+        if (isInDemandRole()) {
+            mOutData.mSource = 0.0;
+        }
     }
 }
 
-- 
2.43.0


From 96969e84cdc3b27150677ccee2df5f97cf07848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 31/62] fix: trace compounds were dropped from flows with
 negative moles, duplicating them when fluid is given back

---
 aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
index a39e784..ca64627 100644
--- a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
+++ b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
@@ -646,7 +646,7 @@ void GunnsFluidTraceCompounds::updateMasses()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidTraceCompounds::updateMoleFractions()
 {
-    if (mFluidMoles > 0.0) {
+    if (mFluidMoles != 0.0) {
         for (int i = 0;  i < mConfig->mNTypes; ++i) {
             mMoleFraction[i] = mMass[i] / mFluidMoles / mConfig->mCompounds[i]->mMWeight;
         }
@@ -655,7 +655,7 @@ void GunnsFluidTraceCompounds::updateMoleFractions()
     /// - To avoid math underflows, zero mass and mole fraction if the mole fraction drops to an
     ///   insignificant level.
     for (int i = 0;  i < mConfig->mNTypes; ++i) {
-        if (mMoleFraction[i] < DBL_EPSILON) {
+        if (std::fabs(mMoleFraction[i]) < DBL_EPSILON) {
             mMoleFraction[i] = 0.0;
             mMass[i]         = 0.0;
         }
-- 
2.43.0


From 135271d8ca15c3ab48f4de217999290fcfa7c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 32/62] fix: condensing heat exchanger separator evaporated and
 slurped more water than its pool held

---
 .../conductor/GunnsFluidCondensingHxSeparator.cpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.cpp b/aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.cpp
index c8d4369..eed3638 100644
--- a/aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.cpp
+++ b/aspects/fluid/conductor/GunnsFluidCondensingHxSeparator.cpp
@@ -454,6 +454,11 @@ void GunnsFluidCondensingHxSeparator::updateFluid(const double dt, const double
 {
     GunnsFluidCondensingHx::updateFluid(dt, flowRate);
     updateSlurper();
+
+    /// - The slurper can't take more out of the pool in a step than the pool holds.
+    if (dt > DBL_EPSILON) {
+        mSlurperFlowRate = std::min(mSlurperFlowRate, mHxCondensateMass / dt);
+    }
     updateWaterSeparator(dt);
 }
 
@@ -490,6 +495,12 @@ void GunnsFluidCondensingHxSeparator::updateHeatExchanger(const double dt)
                             (propertiesH2O->getSaturationPressure(tOut)
                              - mInternalFluid->getPartialPressure(FluidProperties::GUNNS_H2O)) );
 
+        /// - Limit evaporation to the mass in the pool that isn't already flowing to the slurper.
+        if (dt > DBL_EPSILON) {
+            mCondensationRate = std::max(mCondensationRate,
+                                         std::min(0.0, mSlurperFlowRate - mHxCondensateMass / dt));
+        }
+
         /// - Add the evaporation back into the bulk air flow.
         mInternalFluid->addState(mCondensateFluid, -mCondensationRate);
         mInternalFluid->setPressure(mNodes[0]->getPotential());
-- 
2.43.0


From f8eecdd3e620992104ca2ace6fd3824118b06f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 33/62] fix: type change conductor dropped fluid already of the
 type it converts to, and threw an exception

---
 aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
index bdfcc38..ec30247 100644
--- a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
@@ -291,8 +291,8 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
 
         // loop i over mNumTypes:
         for (unsigned int i=0; i<mNumTypes; ++i) {
-            //   set work mole fractions[mIndexPortDown[i]] equal to work mole fractions[mIndexPortUp[i]]
-            mWorkMoleFractions[mIndexPort1[i]] = mNodes[0]->getOutflow()->getMoleFraction(mIndexPort0[i]);
+            //   add work mole fractions[mIndexPortUp[i]] to work mole fractions[mIndexPortDown[i]]
+            mWorkMoleFractions[mIndexPort1[i]] += mNodes[0]->getOutflow()->getMoleFraction(mIndexPort0[i]);
             //   zero work mole fractions[mIndexPortUp[i]]
             mWorkMoleFractions[mIndexPort0[i]] = 0.0;
         }
@@ -312,7 +312,7 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
         }
 
         for (unsigned int i=0; i<mNumTypes; ++i) {
-            mWorkMoleFractions[mIndexPort0[i]] = mNodes[1]->getOutflow()->getMoleFraction(mIndexPort1[i]);
+            mWorkMoleFractions[mIndexPort0[i]] += mNodes[1]->getOutflow()->getMoleFraction(mIndexPort1[i]);
             mWorkMoleFractions[mIndexPort1[i]] = 0.0;
         }
 
-- 
2.43.0


From 605cfc8ea186bae6f36c1689d239d5b7b9a0c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 34/62] fix: heat exchanger reported its temperature change
 from the receiving node when the flow was reversed

---
 aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp b/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp
index 50f26ed..dcafc54 100644
--- a/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp
+++ b/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp
@@ -299,7 +299,8 @@ void GunnsFluidHeatExchanger::updateFluid(const double dt, const double flowRate
     updateSegments(dt, flowRate);
 
     /// - Compute the total temperature change across the heat exchanger
-    mDeltaTemperature = mInternalFluid->getTemperature() - mNodes[0]->getOutflow()->getTemperature();
+    const int inlet   = (flowRate < 0.0) ? 1 : 0;
+    mDeltaTemperature = mInternalFluid->getTemperature() - mNodes[inlet]->getOutflow()->getTemperature();
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3654fd57027b19661e5210765f7c48a34b96bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 35/62] fix: adsorber kept its last source in the network
 solution after sorption stopped

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 548f66c..1d10688 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -376,6 +376,8 @@ void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __at
     mSorbtionFluid->resetState();
     mSorbtionFlowRate = 0.0;
     mMass             = 0.0;
+    mSourceVector[0]  = 0.0;
+    mSourceVector[1]  = 0.0;
 
     /// - Skip sorbtion when the time step is negligible.
     if (dt > DBL_EPSILON) {
-- 
2.43.0


From da83e2d7ecf24b2a2488a9c76ed7eaa2d3a52381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 36/62] fix: adsorber with reversed flow lost trace compounds
 it adsorbed

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 1d10688..1876ece 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -440,7 +440,7 @@ void GunnsFluidAdsorber::adsorb(const double dt, const double rate, const double
     /// - Adsorb trace compounds from the internal fluid.  Trace compounds adsorption efficiency is
     ///   reduced as the accumulated adsorbed mass approaches the maximum the adsorber can hold.
     if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-        mInternalFluid->setMole(mFlux);
+        mInternalFluid->setMole(std::fabs(mFlux));
         tc->updateMasses();
         for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
             double adsorption_efficiency = mTcEfficiency[i];
-- 
2.43.0


From 08063baaab81ceb3d52de66f41411f910ae4f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 37/62] fix: multi-adsorber moved trace compounds only with
 bulk sorption, from stale flow masses, and lost desorbed ones

---
 .../fluid/source/GunnsFluidMultiAdsorber.cpp  | 53 ++++++++++++++-----
 .../fluid/source/GunnsFluidMultiAdsorber.hh   |  2 +
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
index eb8e97c..eedfec2 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
@@ -281,6 +281,20 @@ void GunnsFluidMultiAdsorber::restartModel()
     mSorptionHeat        = 0.0;
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]   dt         (s)     Time step.
+///
+/// @return      void
+///
+/// @details     Sizes the internal fluid to the bulk flow, so that its trace compounds are their flow
+///              rates, before transporting the flows.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsFluidMultiAdsorber::transportFlows(const double dt)
+{
+    mInternalFluid->setMole(std::fabs(mFlux));
+    GunnsFluidConductor::transportFlows(dt);
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   dt         (s)     Time step.
 /// @param[in]   flowRate   (kg/s)  Mass flow rate (not used).
@@ -317,6 +331,12 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
                                  + mInternalFluid->getTemperature());
         const double pAvg = 0.5 * (mPotentialVector[0] + mPotentialVector[1]);
 
+        /// - Scale the trace compound masses in the internal fluid to their mass flow rates.
+        GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
+        if (tc) {
+            tc->updateMasses();
+        }
+
         /// - Update & sum sorption rates of all compounds.
         double fluidAdsorptionRate = 0.0;
         for (unsigned int i=0; i<mNCompounds; ++i) {
@@ -332,6 +352,26 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
         ///   sorbant material, and desorptions are endothermic, pulling heat from the material.
         mWallHeatFlux += mSorptionHeat;
 
+        /// - Update trace compounds.  These ride in the internal fluid with the bulk flow, or are
+        ///   given directly to the exit node when there is none.
+        if (tc) {
+            const bool bulkFlow = std::fabs(mFlowRate) > m100EpsilonLimit;
+            for (unsigned int i=0; i<mNCompounds; ++i) {
+                if (mCompounds[i].isTraceCompound()) {
+                    const int index = mCompounds[i].getIndex();
+                    if (bulkFlow) {
+                        tc->setMass(index, tc->getMasses()[index] - mCompounds[i].mAdsorptionRate);
+                    } else {
+                        static_cast<GunnsFluidNode*>(mNodes[exitPort])->collectTc(index,
+                                                                -mCompounds[i].mAdsorptionRate);
+                    }
+                }
+            }
+            if (bulkFlow) {
+                tc->updateMoleFractions();
+            }
+        }
+
         if (std::fabs(fluidAdsorptionRate) > m100EpsilonLimit) {
 
             /// - Reset the internal fluid state.
@@ -348,19 +388,6 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
             /// - Update output atmosphere mass, moles & fractions from constituent mass.
             mSorptionFluid->updateMass();
 
-            /// - Update trace compounds.
-            if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-                for (unsigned int i=0; i<mNCompounds; ++i) {
-                    if (mCompounds[i].isTraceCompound()) {
-                        const int    index          = mCompounds[i].getIndex();
-                        const double inletRate      = tc->getMasses()[index];
-                        const double adsorptionRate = mCompounds[i].mAdsorptionRate;
-                        tc->setMass(index, inletRate - adsorptionRate);
-                    }
-                }
-                tc->updateMoleFractions();
-            }
-
             /// - Update output atmosphere temperature.
             mSorptionFluid->setTemperature(mInternalFluid->getTemperature());
 
diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.hh b/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
index dc08a61..2467bc5 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
@@ -143,6 +143,8 @@ class GunnsFluidMultiAdsorber : public GunnsFluidConductor
                         std::vector<GunnsBasicLink*>&       networkLinks,
                         const int                           port0,
                         const int                           port1);
+        /// @brief  Transports the fluid flows to and from the network.
+        virtual void transportFlows(const double dt);
         /// @brief  Updates the internal fluid of this GunnsFluidMultiAdsorber.
         virtual void updateFluid(const double dt, const double flowRate);
         /// @brief  Sets the thermal surface area of this GunnsFluidMultiAdsorber.
-- 
2.43.0


From 908f8b9de286f2fe560640767c39e5809f0bfa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 38/62] fix: trace compounds changed when a fluid without them
 joined or left a flow

---
 aspects/fluid/fluid/PolyFluid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/fluid/PolyFluid.cpp b/aspects/fluid/fluid/PolyFluid.cpp
index 37ea386..994f42e 100644
--- a/aspects/fluid/fluid/PolyFluid.cpp
+++ b/aspects/fluid/fluid/PolyFluid.cpp
@@ -1067,10 +1067,15 @@ void PolyFluid::addState(const PolyFluid* src, const double flowRate)
     ///   supposed to change it.
     GunnsFluidTraceCompounds* srcTraceCompounds = src->getTraceCompounds();
     double                    srcMWeight        = src->getMWeight();
-    if (mTraceCompounds and srcTraceCompounds and srcMWeight > DBL_EPSILON) {
+    if (mTraceCompounds) {
         const double savedMole = mMole;
         mMole = moleFlowRate;
-        mTraceCompounds->flowIn(*srcTraceCompounds, srcFlowRate / srcMWeight);
+        if (srcTraceCompounds and srcMWeight > DBL_EPSILON) {
+            mTraceCompounds->flowIn(*srcTraceCompounds, srcFlowRate / srcMWeight);
+        } else {
+            /// - A source without trace compounds still changes the moles they are mixed in.
+            mTraceCompounds->updateMoleFractions();
+        }
         mMole = savedMole;
     }
 }
-- 
2.43.0


From e9cb9d860e64b44a74a8ae1ccdab0703864568fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 39/62] fix: multi-separator sent fluids to the wrong ports,
 and lost trace compounds it does not separate

---
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..8930370 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -683,11 +683,11 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
     /// - The separation fluids added to the exit nodes use the buffered separation flows from last
     ///   pass, which were reflected in the link source vector this pass.
-    for (int port=2, fluid=0; port<mNumPorts; ++port, ++fluid) {
+    for (int fluid=0; fluid<mNumSepTypes; ++fluid) {
         mSepFluid[fluid].setTemperature(temperature);
         const double mdot = mSepBufferExit[fluid] * mSepFluid[fluid].getMWeight();
         if (mdot > DBL_EPSILON) {
-            mNodes[port]->collectInflux(mdot, &mSepFluid[fluid]);
+            mNodes[mSepPort[fluid]]->collectInflux(mdot, &mSepFluid[fluid]);
         }
     }
 
@@ -698,7 +698,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Move trace compounds from the bulk fluid to their exit nodes.
         GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             const GunnsFluidTraceCompoundsConfigData* tcConfig = tc->getConfig();
             for (int i=0; i<tcConfig->mNTypes; i++) {
                 mWorkTcMassFlowRates[i] = flux * tc->getMoleFractions()[i] * tcConfig->mCompounds[i]->mMWeight;
@@ -738,7 +738,8 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Update trace compound mole fractions relative to the moles remaining in the
         ///   internal fluid, before given to the downstream node.
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
+            mInternalFluid->setMole(exitFlux);
             tc->updateMoleFractions();
         }
         mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
-- 
2.43.0


From 57348e8a0c4015aa40442ba28ff4472b848c3a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 40/62] fix: reactor with reversed flow cooled instead of
 heated, and kept its source after its flow stopped

---
 aspects/fluid/source/GunnsFluidReactor.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index 37338fd..4d968d9 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -710,8 +710,9 @@ void GunnsFluidReactor::updateTemperature(const double dt __attribute__((unused)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidReactor::addRxnHeat(const double dt)
 {
-    const double newHeat = mFlowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
-    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / mFlowRate ));
+    const double flowRate = std::fabs(mFlowRate);
+    const double newHeat  = flowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
+    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / flowRate ));
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -761,6 +762,10 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
 {
     if (checkValidPortNumber(toPort) && checkValidPortNumber(fromPort)) {
 
+        /// - The reactions stop when there is no flow through the reactor.
+        mSourceVector[fromPort] = 0.0;
+        mSourceVector[toPort]   = 0.0;
+
         if (mFlowRate > m100EpsilonLimit) {
 
             /// - Move the the conduction flow with mInternalFluid from the upstream node to the
@@ -773,8 +778,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[toPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[toPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
@@ -796,8 +799,6 @@ void GunnsFluidReactor::transportFluid(const bool forcedOutflow __attribute__((u
             ///   respond to the affected total molar flow rate on the next pass.  The source vector
             ///   will be used next pass so there will be a small error in pressure, but mass will
             ///   be conserved and GUNNS washes out pressure errors over time.
-            mSourceVector[fromPort] = 0.0;
-            mSourceVector[toPort]   = 0.0;
             if (mProductsFlowRate > m100EpsilonLimit) {
                 mNodes[fromPort]->collectInflux(mProductsFlowRate,  mProductsFluid);
                 mSourceVector[fromPort] += mProductsFlowRate  / mProductsFluid->getMWeight();
-- 
2.43.0


From 40745a8949a6a72053795ce83b657d6ec1a84e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 41/62] fix: separator liquid returned the contents of its node
 instead of its liquid after a reversed flow

---
 aspects/fluid/source/GunnsFluidSeparatorLiquid.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidSeparatorLiquid.cpp b/aspects/fluid/source/GunnsFluidSeparatorLiquid.cpp
index 990b6aa..73eb98a 100644
--- a/aspects/fluid/source/GunnsFluidSeparatorLiquid.cpp
+++ b/aspects/fluid/source/GunnsFluidSeparatorLiquid.cpp
@@ -257,11 +257,20 @@ void GunnsFluidSeparatorLiquid::derive(const GunnsFluidSeparatorLiquidConfigData
 ///
 /// @return   void
 ///
-/// @details  Updates the incoming fluid temperature based on inputs from the gas aspect.
+/// @details  Updates the incoming fluid type, temperature and mass flow rate based on inputs from the
+///           gas aspect.  A reversed flow leaves the contents of the liquid node in the internal
+///           fluid, so the incoming liquid is restored here.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidSeparatorLiquid::updateFluid(const double dt       __attribute__((unused)),
                                             const double flowrate __attribute__((unused)))
 {
+    if (mFlux > 0.0) {
+        double fractions[FluidProperties::NO_FLUID] = {0.0};
+        fractions[mLiquidIndex] = 1.0;
+        mInternalFluid->setMassAndMassFractions(0.0, fractions);
+        mFlowRate = mFlux * mInternalFluid->getMWeight();
+    }
+
     /// - Update the internal fluid using the (simbus input) liquid transfer temperature.
     mInternalFluid->setTemperature(mTransferTemperature);
 }
-- 
2.43.0


From 1ecc712c2af7a871025463a8761bba51bbc3347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:26 +0000
Subject: [PATCH 42/62] fix: fluid capacitor compressed its fluid by an amount
 that depended on the time step

---
 core/GunnsFluidCapacitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/GunnsFluidCapacitor.cpp b/core/GunnsFluidCapacitor.cpp
index a74e303..b7e16f6 100755
--- a/core/GunnsFluidCapacitor.cpp
+++ b/core/GunnsFluidCapacitor.cpp
@@ -373,9 +373,9 @@ void GunnsFluidCapacitor::buildSourceVector(const double dt)
     mSourceVector[1] = 0.0;
 
     /// - Add the node's thermal capacitance and compression effect to the source vector.
-    mSourceVector[0] += mNodes[0]->computeCompression();
+    const double compression = mNodes[0]->computeCompression();
     if (dt > DBL_EPSILON) {
-        mSourceVector[0] += mNodes[0]->computeThermalCapacitance() / dt;
+        mSourceVector[0] += (compression + mNodes[0]->computeThermalCapacitance()) / dt;
     }
 }
 
-- 
2.43.0


From d224a90333953417ed0f3b181e1fb036ad6190d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 43/62] fix: tank applied the last increment of a finished
 partial pressure edit again while others went on

---
 aspects/fluid/capacitor/GunnsFluidTank.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidTank.cpp b/aspects/fluid/capacitor/GunnsFluidTank.cpp
index 900aa92..76e714c 100644
--- a/aspects/fluid/capacitor/GunnsFluidTank.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidTank.cpp
@@ -374,8 +374,9 @@ void GunnsFluidTank::updateState(const double dt)
                     mEditPartialPressureRateFlag[i] = false;
                 }
             }
+        }
 
-        } else {
+        if (editComplete[i]) {
             /// Constituents that are not undergoing edits should have no portion of the internal
             /// fluid.
             mInternalFluid->setMass(i, 0.0);
-- 
2.43.0


From 08a2bce1dde18c7fcc4ae308eb0598cd6b359824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 44/62] fix: fan kept a stale source pressure when Laguerre's
 method bounced around its root

---
 aspects/fluid/potential/GunnsGasFanCurve.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aspects/fluid/potential/GunnsGasFanCurve.cpp b/aspects/fluid/potential/GunnsGasFanCurve.cpp
index 30583a3..1fad2ac 100644
--- a/aspects/fluid/potential/GunnsGasFanCurve.cpp
+++ b/aspects/fluid/potential/GunnsGasFanCurve.cpp
@@ -64,9 +64,16 @@ void GunnsGasFanCurve::improveRoot(double& realRoot, double* realCoeffs, double
         for (int order=0; order<6; ++order) {
             coeffs[order] = realCoeffs[order];
         }
-        mIterLaguerre = LaguerreMethod::solve(root, coeffs, 6);
+        bool converged = false;
+        try {
+            mIterLaguerre = LaguerreMethod::solve(root, coeffs, 6);
+            converged     = true;
+        } catch (TsNumericalException& e) {
+            /// - Laguerre's can bounce between adjacent values of a valid root without meeting its
+            ///   convergence tolerance, so let Brent's method decide if there is a root.
+        }
 
-        if (MsMath::isInRange(0.0, root.real(), maxQ) and std::fabs(root.imag()) < DBL_EPSILON) {
+        if (converged and MsMath::isInRange(0.0, root.real(), maxQ) and std::fabs(root.imag()) < DBL_EPSILON) {
             realRoot = root.real();
 
         } else try {
@@ -83,7 +90,7 @@ void GunnsGasFanCurve::improveRoot(double& realRoot, double* realCoeffs, double
         }
 
     } catch (...) {
-        /// - Throw an exception if Laguerre could not find any roots at all.
+        /// - Throw an exception if neither method could find any roots at all.
         throw TsNumericalException("Re-throwing", "GunnsGasFanCurve::improveRoot",
                 "LaguerreMethod threw exception.");
     }
-- 
2.43.0


From 5c97de2f230bd683f1bcd3823c8fd4f5c77a1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 45/62] fix: displacement pump converted its flow demand with
 the molecular weight of the fluid moved in the step before

---
 aspects/fluid/source/GunnsGasDisplacementPump.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aspects/fluid/source/GunnsGasDisplacementPump.cpp b/aspects/fluid/source/GunnsGasDisplacementPump.cpp
index 389a710..cb6565c 100644
--- a/aspects/fluid/source/GunnsGasDisplacementPump.cpp
+++ b/aspects/fluid/source/GunnsGasDisplacementPump.cpp
@@ -319,6 +319,10 @@ void GunnsGasDisplacementPump::updateState(const double dt)
     } else {
         mFlowDemand = mVolFlowRate * mNodes[1]->getContent()->getDensity();
     }
+
+    /// - Update the internal fluid to the fluid being moved now, since the base class uses its
+    ///   molecular weight to convert the demanded flow rate to a molar flux.
+    mInternalFluid->setState(mNodes[determineSourcePort(mFlowDemand, 0, 1)]->getOutflow());
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f2c97cbc9431e8a17ddb5189189cf79d816c08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:27 +0000
Subject: [PATCH 46/62] fix: fluid source with an internal fluid moved its
 molar flow with the molecular weight of the attached node

The flow demand was converted to moles with the internal fluid's molecular weight, and back to mass with the node's, so crew metabolic sources moved more mass than they produce.
---
 core/GunnsFluidSource.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/GunnsFluidSource.cpp b/core/GunnsFluidSource.cpp
index 4f44691..1a74d92 100755
--- a/core/GunnsFluidSource.cpp
+++ b/core/GunnsFluidSource.cpp
@@ -258,10 +258,14 @@ void GunnsFluidSource::computeFlows(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidSource::transportFlows(const double dt)
 {
-    /// - Convert the molar flow rate to mass rate using the molecular weight of the source node.
-    int    sourcePort    = determineSourcePort(mFlux, 0, 1);
-    double sourceDensity =         mNodes[sourcePort]->getOutflow()->getDensity();
-    mFlowRate            = mFlux * mNodes[sourcePort]->getOutflow()->getMWeight();
+    /// - Convert the molar flow rate to mass rate using the molecular weight of the internal fluid
+    ///   if there is one, as it was used to convert the demand to molar flow, or of the source node.
+    const PolyFluid* source = mInternalFluid;
+    if (not source) {
+        source = mNodes[determineSourcePort(mFlux, 0, 1)]->getOutflow();
+    }
+    double sourceDensity =         source->getDensity();
+    mFlowRate            = mFlux * source->getMWeight();
 
     /// - Calculate true volumetric flow rate from the mass flow rate, using the density of the
     ///   source node.
-- 
2.43.0


From 3ebd316c486bef5bb6e3436c3055f428ca50fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:27 +0000
Subject: [PATCH 47/62] fix: crew in several metabolic states together consumed
 more oxygen than the node holds

---
 aspects/fluid/source/GunnsFluidMetabolic.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMetabolic.cpp b/aspects/fluid/source/GunnsFluidMetabolic.cpp
index 5743f58..02415f2 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic.cpp
@@ -395,14 +395,15 @@ void GunnsFluidMetabolic::updateState(const double dt)
         mProducedH2O   = 0.0;
         mProducedHeat  = 0.0;
         for (int i = 0; i < GunnsFluidMetabolic::NO_METABOLIC; ++i) {
-            /// - O2 consumption rate is limited by the O2 mass in the node.
-            mConsumedO2   += std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
-                                   mNodes[1]->getContent()->getMass()) / dt,
-                                  mNCrew[i] * mO2ConsumptionRate[i]);
+            mConsumedO2   += mNCrew[i] * mO2ConsumptionRate[i];
             mProducedCO2  += mNCrew[i] * mCO2ProductionRate[i];
             mProducedH2O  += mNCrew[i] * mH2OProductionRate[i];
             mProducedHeat += mNCrew[i] * mHeatProductionRate[i];
         }
+
+        /// - Total O2 consumption rate is limited by the O2 mass in the node.
+        mConsumedO2 = std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
+                            mNodes[1]->getContent()->getMass()) / dt, mConsumedO2);
         const double flowDemand = mProducedH2O + mProducedCO2 - mConsumedO2;
 
         if (std::fabs(flowDemand) <= DBL_EPSILON) {
-- 
2.43.0


From 257563b7fc2c7681451b54293d4671381f8341a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 48/62] fix: switch link collected its flux in the nodes once
 per converged minor step instead of once per step

---
 aspects/electrical/Switch/SwitchElect.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index a270a72..a4910c2 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -157,10 +157,16 @@ void SwitchElect::updateState(const double timeStep __attribute__((unused))) {
 
 /////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   timeStep  (s)  time step
-/// @details  Method for saving dt
+/// @details  Method for saving dt and transporting the flux of the final network solution
 /////////////////////////////////////////////////////////////////////////////////////////////////
 void SwitchElect::computeFlows(const double timeStep) {
     mTimeStep = timeStep;
+
+    mPotentialDrop =  getDeltaPotential();
+    computeFlux();
+    updateFlux(mTimeStep, mFlux); // nothing really done here. Kept the same gunnsBasicConductor
+    computePower();
+    transportFlux();
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////
@@ -177,9 +183,6 @@ GunnsBasicLink::SolutionResult SwitchElect::confirmSolutionAcceptable(
 
       mPotentialDrop =  getDeltaPotential();
       computeFlux();
-      updateFlux(mTimeStep, mFlux); // nothing really done here. Kept the same gunnsBasicConductor
-      computePower();
-      transportFlux();
 
       mVoltage = mPotentialVector[0];
       mCurrent = mFlux;
-- 
2.43.0


From 3956802c53fe20a19eac3e7c9207cb3b00ad5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 49/62] fix: tangent linearization of a power function resistor
 had the wrong sign for a reversed potential drop

---
 aspects/electrical/resistive/GunnsResistorPowerFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
index c4854ae..6096fa8 100755
--- a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
+++ b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
@@ -251,6 +251,9 @@ void GunnsResistorPowerFunction::minorStep(const double dt        __attribute__(
             const double current = std::pow(dPG, expInv);
             mSystemAdmittance    = expInv * std::pow(dPG, (expInv - 1.0));
             mSystemSource        = current - mSystemAdmittance * dPLimit;
+            if (mPotentialVector[0] < mPotentialVector[1]) {
+                mSystemSource    = -mSystemSource;
+            }
 
         } else {
             /// - The is the default, and in our opinion, far better configuration.  The
-- 
2.43.0


From 6e0caaa99b0301a4a1b7a0cb19b2c877959e5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:04 +0000
Subject: [PATCH 50/62] fix: constant power load collected its flux in the
 nodes at every minor step

---
 .../electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
index 11aa032..cd67b79 100644
--- a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
+++ b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
@@ -198,7 +198,10 @@ void EpsConstantPowerLoad::updateState(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void EpsConstantPowerLoad::minorStep(const double dt, const int)
 {
-    computeFlows(dt);
+    // The flux is transported to the nodes only once per major step, by computeFlows.
+    mPotentialDrop = getDeltaPotential();
+    computeFlux();
+    computePower();
     step(dt);
 }
 
-- 
2.43.0


From b058269304bbef34564855f3217f259acfa8be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 51/62] fix: linear interpolator initialized again with a
 smaller table read beyond it

---
 ms-utils/math/approximation/TsLinearInterpolator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ms-utils/math/approximation/TsLinearInterpolator.cpp b/ms-utils/math/approximation/TsLinearInterpolator.cpp
index eed1a52..6d8b87d 100644
--- a/ms-utils/math/approximation/TsLinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsLinearInterpolator.cpp
@@ -138,6 +138,7 @@ void TsLinearInterpolator::init(const double *x, const double *z, const int n,
                         "Invalid Input Argument", "null pointer to dependent variable (z) array.");
 
     mM = n;
+    mI = 0;
     cleanup();
 //    TS_DELETE_ARRAY(mX);
 //    TS_DELETE_ARRAY(mZ);
-- 
2.43.0


From 25ac7e02630c9d8c58856d54ad87d93ac2e77147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 52/62] fix: bilinear interpolator swapped the middle of
 descending tables of even size back

---
 ms-utils/math/approximation/TsBilinearInterpolator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 5139e0a..4a469f9 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -200,7 +200,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (x[1] < x[0]) {
         /// - X array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mM/2+1; ++i) {
+        for (int i = 0; i < (mM+1)/2; ++i) {
             mX[i] = x[mM - i - 1];
             mX[mM - i - 1] = x[i];
             for (int j = 0; j < mN; ++j) {
@@ -218,7 +218,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (y[1] < y[0]) {
         /// - Y array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mN/2+1; ++i) {
+        for (int i = 0; i < (mN+1)/2; ++i) {
             mY[i] = y[mN - i - 1];
             mY[mN - i - 1] = y[i];
             for (int j = 0; j < mM; ++j) {
-- 
2.43.0


From 893f2bfaf18ffe6ce340a9b3ef5cf9f2dab4c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 53/62] fix: bilinear interpolator crashed when destroyed after
 refused data and leaked its table when initialized again

---
 .../math/approximation/TsBilinearInterpolator.cpp    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 4a469f9..6ed32a8 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -85,10 +85,11 @@ TsBilinearInterpolator::~TsBilinearInterpolator()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void TsBilinearInterpolator::cleanup()
 {
-    for (int i = 0; i < mM; ++i) {
-        delete [] mZ[i];
-        mZ[i] = 0;
-    } {
+    if (mZ) {
+        for (int i = 0; i < mM; ++i) {
+            delete [] mZ[i];
+            mZ[i] = 0;
+        }
         delete [] mZ;
         mZ = 0;
     } {
@@ -129,6 +130,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     /// - Reset the initialization complete flag.
     mInitFlag = false;
 
+    /// - Release the previous table before its size is forgotten.
+    cleanup();
+
     mM = m;
     mN = n;
 
-- 
2.43.0


From cae701b12665ef2518d00768465bab5e274181b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 54/62] fix: bilinear interpolator never reported it was
 initialized

---
 ms-utils/math/approximation/TsBilinearInterpolator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 6ed32a8..4489d9b 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -266,6 +266,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     mN = n;
     mI = 0;
     mJ = 0;
+
+    /// - Set the initialization complete flag.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4b2c67d76754ec8dc7985fdac30fb50082dcea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 55/62] fix: reverse bilinear interpolator missed the largest
 value of a table that starts with it

---
 ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
index befb6d3..625ef9b 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
@@ -80,7 +80,8 @@ void TsBilinearInterpolatorReverse::init()
         for (int j=0; j<mN; ++j) {
             if (mZ[i][j] < mMinY) {
                 mMinY = mZ[i][j];
-            } else if (mZ[i][j] > mMaxY) {
+            }
+            if (mZ[i][j] > mMaxY) {
                 mMaxY = mZ[i][j];
             }
         }
-- 
2.43.0


From 9886c2367b5ab0974d3bf1639c8c6c4443d89201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:31 +0000
Subject: [PATCH 56/62] fix: quadratic root fit checked its range against
 coefficients of the previous fit

---
 ms-utils/math/approximation/QuadraticRootFit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/QuadraticRootFit.cpp b/ms-utils/math/approximation/QuadraticRootFit.cpp
index 8a74279..29c2fd2 100644
--- a/ms-utils/math/approximation/QuadraticRootFit.cpp
+++ b/ms-utils/math/approximation/QuadraticRootFit.cpp
@@ -87,7 +87,7 @@ void QuadraticRootFit::init(const double a,    const double b,
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
     TS_GENERIC_IF_ERREX((std::fabs(b) < DBL_EPSILON), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -mB / mC && -mB / mC < maxX - flt_epsilon), TsInitializationException,
+    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -0.25 * a * a / b && -0.25 * a * a / b < maxX - flt_epsilon), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From 73841700f53e4cfffa2ce6a00a7072e7cc7cdc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 57/62] fix: Sutherland fit accepted ranges that contain its
 pole

---
 ms-utils/math/approximation/SutherlandFit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/SutherlandFit.cpp b/ms-utils/math/approximation/SutherlandFit.cpp
index 6c880f3..e85db61 100644
--- a/ms-utils/math/approximation/SutherlandFit.cpp
+++ b/ms-utils/math/approximation/SutherlandFit.cpp
@@ -76,7 +76,7 @@ void SutherlandFit::init(const double a,    const double b,
     mInitFlag = false;
 
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
-    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b - mMaxX), TsInitializationException,
+    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b + mMaxX), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From 8dd7e1afd06652198230bc2a1b285ea3e88776eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:01 +0000
Subject: [PATCH 58/62] fix: rigid body with an offset center of mass: torques
 about the center of mass were used in the equations about the body frame
 origin

---
 aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
index 5c91331..687a889 100755
--- a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
+++ b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
@@ -247,6 +247,14 @@ void GunnsDynSingleRigidStateDeriv::buildSourceVector()
         mSourceVector[0] -= mGyroForce[0];
         mSourceVector[1] -= mGyroForce[1];
         mSourceVector[2] -= mGyroForce[2];
+
+        /// - The applied & gyroscopic torques are about the CM.  The rotational rows of [A] are about
+        ///   the body frame origin, so add the moment of the CM forces about the origin.
+        double momentOfCm[3];
+        GunnsDynUtils::crossV3(momentOfCm, mMassProps.mCM, mSourceVector);
+        mSourceVector[3] += momentOfCm[0];
+        mSourceVector[4] += momentOfCm[1];
+        mSourceVector[5] += momentOfCm[2];
     } else {
         GunnsDynUtils::zeroV(mGyroForce, 3);
     }
-- 
2.43.0


From 6bdf573c15810ae1cf04d3bdbca604e01bd2bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 59/62] fix: fluid equivalent conductor carries the mixture of
 its source node

---
 aspects/fluid/conductor/GunnsFluidEqConductor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
index 7613c23..8db5c91 100755
--- a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
@@ -394,8 +394,11 @@ void GunnsFluidEqConductor::transportFlows(const double dt __attribute__((unused
     /// - Calculate hydraulic power rise from supply to return ports.
     mPower = -UnitConversion::PA_PER_KPA * mVolFlowRate * getDeltaPotential();
 
-    /// - Update the internal fluid temperature with the external network temperature at the port
-    ///   from which flow is returning.
+    /// - Update the internal fluid mixture from the source node, and its temperature with the
+    ///   external network temperature at the port from which flow is returning.
+    if (std::fabs(mFlowRate) > DBL_EPSILON) {
+        mInternalFluid->setState(mNodes[sourcePort]->getOutflow());
+    }
     if (mFlowRate > DBL_EPSILON) {
         mInternalFluid->setTemperature(mPort1DemandTemperature);
     } else if (mFlowRate < -DBL_EPSILON) {
-- 
2.43.0


From 308b429065b468df4c1e16b307dc89c9d8699f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 60/62] fix: fluid equivalent conductor takes its leaks out of
 the nodes

---
 aspects/fluid/conductor/GunnsFluidEqConductor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
index 8db5c91..a6924b3 100755
--- a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
@@ -369,6 +369,10 @@ void GunnsFluidEqConductor::computeFlows(const double dt __attribute__((unused))
         mPortDirections[0] = NONE;
         mPortDirections[1] = NONE;
     }
+
+    /// - Schedule the external leaks out of the nodes.
+    mNodes[0]->scheduleOutflux(mPort0LeakConductance * mPotentialVector[0]);
+    mNodes[1]->scheduleOutflux(mPort1LeakConductance * mPotentialVector[1]);
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0fc025d15730e118c0374e7e1c08eaa8ad5164cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:26 +0000
Subject: [PATCH 61/62] fix: message filter forgets the message that was really
 the oldest

---
 ms-utils/simulation/hs/TsHsMsgStdFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
index fa3c65b..7ae5d4c 100644
--- a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
@@ -97,7 +97,7 @@ void TsHsMsgStdFilter::purgeMessages()
 
     TsHsMessageMap::iterator oldest = mMessageMap.begin();
 
-    for (TsHsMessageMap::iterator iter = ++oldest; iter != mMessageMap.end(); iter++)
+    for (TsHsMessageMap::iterator iter = oldest; iter != mMessageMap.end(); iter++)
     {
         if ((*iter).second.back() < (*oldest).second.back())
         {
-- 
2.43.0


From 6cd99994a0e0a36c446fd7712ddd9ce0300a3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:26 +0000
Subject: [PATCH 62/62] fix: mission timer shows hours and minutes right before
 launch

---
 ms-utils/simulation/timer/TS_timer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ms-utils/simulation/timer/TS_timer.c b/ms-utils/simulation/timer/TS_timer.c
index 48077e8..63deed3 100644
--- a/ms-utils/simulation/timer/TS_timer.c
+++ b/ms-utils/simulation/timer/TS_timer.c
@@ -73,10 +73,10 @@ void TS_timer_update(TS_TIMER_TYPE *timer_ptr, double dt)
    //------------------------------------------------------------
    // Multiply by pre-launch flag so that these display (time) variables are not negative
    //------------------------------------------------------------
-   days  = pre * ( (int)seconds / 86400 );
-   hours = pre * ( (int)(seconds / 3600) - (days * 24) );
-   mins  = pre * ( (int)(seconds / 60) - (days * 1440) - (hours * 60) );
-   secs  = pre * ( (int)seconds % 60 );
+   days  = (int)(pre * seconds) / 86400;
+   hours = (int)(pre * seconds / 3600) - (days * 24);
+   mins  = (int)(pre * seconds / 60) - (days * 1440) - (hours * 60);
+   secs  = (int)(pre * seconds) % 60;
 
    timer_ptr->pre     = pre;
    timer_ptr->day     = days;
-- 
2.43.0

