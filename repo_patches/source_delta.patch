From 9a67b2e5499ba41ea90eb6d26af893a602ad0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 01/85] fix: keep requesting a rebuild until the new admittance
 matrix has been decomposed

When the matrix was built but not decomposed (non-NORMAL solver mode, SOR
used instead, or decomposition limit exceeded), the rebuild request was
dropped, so the next NORMAL step without a link admittance change solved the
system with an undecomposed matrix and returned wrong potentials.
---
 core/Gunns.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..5e2485a 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -796,7 +796,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -966,7 +965,10 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
         buildAdmittanceMatrix();
         conditionAdmittanceMatrix();
         needDecomposition = true;
-        mRebuild = false;
+        /// - The new matrix can't be used to solve the system until it is decomposed, so keep asking for
+        ///   a rebuild until that happens.  It doesn't happen this call in non-NORMAL modes, when SOR is
+        ///   used instead, or when the decomposition limit is exceeded.
+        mRebuild = true;
     }
     mStepLog.recordLinkContributions();
 
@@ -1036,6 +1038,7 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
                     } else {
                         decompose(mAdmittanceMatrix, mNetworkSize);
                     }
+                    mRebuild = false;
                 } else {
                     throw TsOutOfBoundsException("Iteration Limit Exceeded", "Gunns",
                                                  "decomposition limit exceeded.");
-- 
2.43.0


From 65b24bf2c79156d42ab99f4dd787cf62b88689c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 02/85] fix: keep network capacitance requests through all
 minor steps of a major step

In a non-linear network that takes more than one minor step, requests made in
step() of linear links were cleared by the first minor step, and the second
one then overwrote the computed network capacitance with zero.
---
 core/Gunns.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index 5e2485a..c78eef8 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -764,6 +764,14 @@ void Gunns::step(const double timeStep)
         throw e;
     }
 
+    /// - Reset the nodes' network capacitance requests now that the last minor step is done.  This
+    ///   isn't done any earlier, because the next minor step would lose the requested value.
+    if (NORMAL == mSolverMode) {
+        for (int node = 0; node < mNetworkSize; ++node) {
+            mNodes[node]->setNetworkCapacitanceRequest(0.0);
+        }
+    }
+
     /// - System performance metrics: update the average minor frame count per major frame.
     mAvgMinorStepCount     = double (mMinorStepCount)     / double (mMajorStepCount);
     mAvgDecompositionCount = double (mDecompositionCount) / double (mMajorStepCount);
@@ -1560,9 +1568,6 @@ void Gunns::computeNetworkCapacitances(const double timeStep)
             for (int i=0,j=offset; i<mNetworkSize; ++i,++j) {
                 mNetCapDeltaPotential[j] -= mPotentialVector[i];
             }
-
-            /// - Reset the node's request when done.
-            mNodes[node]->setNetworkCapacitanceRequest(0.0);
         }
     }
 }
-- 
2.43.0


From a10a11aa52ebd4ac1dd723f0007ac87f4cb4b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 03/85] fix: restart returns link ports to their default nodes
 when ports must trade nodes

registerNodes moved one port at a time, so a port was refused its default
node while another port of the same link still held it, and the link stayed
partly mapped to the wrong nodes after a restart.
---
 core/GunnsBasicLink.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/GunnsBasicLink.cpp b/core/GunnsBasicLink.cpp
index b83f21b..6357b1a 100755
--- a/core/GunnsBasicLink.cpp
+++ b/core/GunnsBasicLink.cpp
@@ -312,9 +312,22 @@ void GunnsBasicLink::restartModel()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsBasicLink::registerNodes(const int* portMap, const std::string& source, const bool verbose)
 {
+    /// - Release the ports that are moving first, so that a port isn't refused its node only because
+    ///   another port of this link has yet to leave it.
+    const std::vector<int> oldNodeMap(mNodeMap, mNodeMap + mNumPorts);
     for (int i = 0; i < mNumPorts; ++i) {
         mDefaultNodeMap[i] = portMap[i];
-        setPort(i, portMap[i], source, verbose);
+        if (mNodeMap[i] != portMap[i] and not mNodeMapLocked) {
+            mNodeMap[i] = -1;
+        }
+    }
+    for (int i = 0; i < mNumPorts; ++i) {
+        if (not setPort(i, portMap[i], source, verbose) and mNodeMap[i] != oldNodeMap[i]) {
+            /// - A port that is refused stays where it was.
+            mNodeMap[i] = oldNodeMap[i];
+            updateNodePointer(i);
+            updateAdmittanceMap();
+        }
     }
 }
 
-- 
2.43.0


From d147ef486c256778912fb9ae70a07aefd9dbcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 04/85] fix: compute fluid mixture temperature when the
 specific heat slope vanishes

---
 aspects/fluid/fluid/PolyFluid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aspects/fluid/fluid/PolyFluid.cpp b/aspects/fluid/fluid/PolyFluid.cpp
index 37ea386..042fac4 100644
--- a/aspects/fluid/fluid/PolyFluid.cpp
+++ b/aspects/fluid/fluid/PolyFluid.cpp
@@ -1179,6 +1179,11 @@ double PolyFluid::computeTemperature(const double specificEnthalpy) const
     ///   so -4ac = +4ah.
     // Protect for square root of negative number
     const double temp = std::max( (b * b + 4.0 * a * specificEnthalpy), 0.0);
+    // As a vanishes, as it can in mixtures of fluids with opposite specific heat slopes, use the
+    // equivalent form of this root that doesn't divide a difference of nearly equal terms by a.
+    if (b > 0.0 and std::fabs(4.0 * a * specificEnthalpy) < 1.0E-4 * b * b) {
+        return 2.0 * specificEnthalpy / (b + std::sqrt(temp));
+    }
     return 0.5 * (-b + std::sqrt(temp)) / a;
 }
 
-- 
2.43.0


From c58c1fcc9772eaf0154974c485f7319828138284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 05/85] fix: don't abort flow transport when a node's mass
 after inflow rounds across the minimum

---
 core/GunnsFluidNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/GunnsFluidNode.cpp b/core/GunnsFluidNode.cpp
index c74390c..d790f8f 100755
--- a/core/GunnsFluidNode.cpp
+++ b/core/GunnsFluidNode.cpp
@@ -640,7 +640,7 @@ void GunnsFluidNode::integrateFlows(const double dt)
                 mContent.getTraceCompounds()->flowOut(contentOutMass / mContent.getMWeight());
             }
 
-            if (oldMass + inMass - inflowOutMass >= DBL_EPSILON) {
+            if (oldMass + (inMass - inflowOutMass) >= DBL_EPSILON) {
                 GunnsFluidUtils::mixFluidMasses(&mContent, oldMass,
                                                 &mInflow,  (inMass - inflowOutMass),
                                                 mNumFluidTypes);
-- 
2.43.0


From e7ace7b0e5a8fbc36bd58f376ef273e7fb3d30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 06/85] fix: MsMath::quantize beyond the integer range

The ratio of the input to the resolution was rounded through an int, which overflows
for ratios beyond 2^31 and returned a wrong value.
---
 ms-utils/math/MsMath.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/MsMath.hh b/ms-utils/math/MsMath.hh
index 268e76e..9148776 100755
--- a/ms-utils/math/MsMath.hh
+++ b/ms-utils/math/MsMath.hh
@@ -631,7 +631,7 @@ inline double MsMath::quantize(const double input, const double resolution)
 {
     double result = input;
     if (DBL_EPSILON < resolution) {
-        result = resolution * round(input / resolution);
+        result = resolution * std::floor(input / resolution + 0.5);
     }
 
     return result;
-- 
2.43.0


From 96c0d186a723e8237702b02645884d660faa22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 07/85] fix: MsMath::asinh of large negative values

value + sqrt(value^2 + 1) cancels for negative arguments: the result lost accuracy and
became zero beyond about -1e8.  The function is odd, so compute from the magnitude.
---
 ms-utils/math/MsMath.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ms-utils/math/MsMath.hh b/ms-utils/math/MsMath.hh
index 9148776..699b5e8 100755
--- a/ms-utils/math/MsMath.hh
+++ b/ms-utils/math/MsMath.hh
@@ -653,7 +653,9 @@ inline double MsMath::quantize(const double input, const double resolution)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline double MsMath::asinh(const double value)
 {
-    return  MsMath::protectedLog(value + std::sqrt(value * value + 1.0));
+    const double magnitude = std::fabs(value);
+    const double result    = MsMath::protectedLog(magnitude + std::sqrt(magnitude * magnitude + 1.0));
+    return (value < 0.0) ? -result : result;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 873f56c31cd60c8d9019403e5351d62d46ef04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 08/85] fix: fluid leak keeps the other malfunction's
 conductance when switched back

When the hole and rate leak malfunctions alternate while at least one stays
active, the remembered value of the inactive one was never cleared, so
returning to it left the other malfunction's conductivity in effect.
---
 aspects/fluid/conductor/GunnsFluidLeak.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/conductor/GunnsFluidLeak.cpp b/aspects/fluid/conductor/GunnsFluidLeak.cpp
index 8a8c06d..861dbf7 100644
--- a/aspects/fluid/conductor/GunnsFluidLeak.cpp
+++ b/aspects/fluid/conductor/GunnsFluidLeak.cpp
@@ -232,6 +232,7 @@ inline void GunnsFluidLeak::updateState(const double dt __attribute__((unused)))
         if (mPreviousLeakHole != mMalfLeakHoleValue) {
             mLeakConductivity  = mMalfLeakHoleValue;
             mPreviousLeakHole  = mMalfLeakHoleValue;
+            mPreviousLeakRate  = 0.0;
         }
         mEffectiveConductivity = mLeakConductivity;
     } else if (mMalfLeakRateFlag) {
@@ -240,6 +241,7 @@ inline void GunnsFluidLeak::updateState(const double dt __attribute__((unused)))
         if (mPreviousLeakRate != mMalfLeakRateValue) {
             updateLeakConductance();
             mPreviousLeakRate  = mMalfLeakRateValue;
+            mPreviousLeakHole  = 0.0;
         }
         mEffectiveConductivity = mLeakConductivity;
     } else {
-- 
2.43.0


From 81df9ac73ec0a4ddee40f758fb0e4425f220bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:09 +0000
Subject: [PATCH 09/85] fix: decomposition accepts a non-positive first pivot

CholeskyLdu::Decompose checks the pivot of every row but the first, so a
matrix whose first diagonal is zero or negative was accepted and left NaNs or
a wrong factorisation instead of throwing.
---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index 46bb1ca..c3d4831 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -62,6 +62,11 @@ CholeskyLdu::~CholeskyLdu()
 //#include <cstdio>  //Todo remove - used for that underflow test below
 void CholeskyLdu::Decompose(double *A, int n)
 {
+    /// - The loop below starts with the second row, so check the first row's pivot here.
+    if ( *A <= 0.0 ) {
+        throw(TsNumericalException("", "CholeskyLdu::Decompose", "failed at row 0"));
+    }
+
 //    /// - TODO temp underflow test
 //    ld = 1.0E-10;
 //    for (i = 1; i<10; ++i) {
-- 
2.43.0


From 1488779237d6d00c88cdc7fdb58060a2edc42e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 10/85] fix: partitioned decomposition reads past a one-row
 partition

The increments of the second row were read even when the partition has only one
row, and its pivot was never checked.
---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index c3d4831..371baf8 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -139,6 +139,16 @@ void CholeskyLdu::Decompose(double *A, int n)
 void CholeskyLdu::Decompose(double *A, int n, std::vector<int>& r)
 {
     const int rn = static_cast<int>(r.size());
+
+    /// - The loop below starts with the second row, so check the first row's pivot here, and there
+    ///   is nothing else to do for a single row.
+    if ( rn > 0 and *(A + (n + 1) * r[0]) <= 0.0 ) {
+        throw(TsNumericalException("", "CholeskyLdu::Decompose", "failed at row 0"));
+    }
+    if (rn < 2) {
+        return;
+    }
+
     // create vectors that contain the increments between rows in r.  Tried actual std::vectors,
     // but they're slower to reference than arrays.  This method runs faster with arrays.
     int* vri = new int[rn];
-- 
2.43.0


From 39682926f472de40cb64d6bc0e3654b963160bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 11/85] fix: Sutherland fit accepts a range that contains its
 singularity

The range check tested b - maxX instead of b + maxX, so a range with -b inside
it was accepted and the fit divided by zero.
---
 ms-utils/math/approximation/SutherlandFit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/SutherlandFit.cpp b/ms-utils/math/approximation/SutherlandFit.cpp
index 6c880f3..e85db61 100644
--- a/ms-utils/math/approximation/SutherlandFit.cpp
+++ b/ms-utils/math/approximation/SutherlandFit.cpp
@@ -76,7 +76,7 @@ void SutherlandFit::init(const double a,    const double b,
     mInitFlag = false;
 
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
-    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b - mMaxX), TsInitializationException,
+    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b + mMaxX), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From 0a92e94b0e16de46f64678ef2125790e782bd1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 12/85] fix: reverse bilinear interpolator misses the maximum
 of its table

A table value that set a new minimum was never considered for the maximum, so
the upper range limit of a descending table was wrong and valid inputs were
clamped away from the table.
---
 ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
index befb6d3..625ef9b 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolatorReverse.cpp
@@ -80,7 +80,8 @@ void TsBilinearInterpolatorReverse::init()
         for (int j=0; j<mN; ++j) {
             if (mZ[i][j] < mMinY) {
                 mMinY = mZ[i][j];
-            } else if (mZ[i][j] > mMaxY) {
+            }
+            if (mZ[i][j] > mMaxY) {
                 mMaxY = mZ[i][j];
             }
         }
-- 
2.43.0


From e377d774b20c10e41688eeec4442e11a7a10cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 13/85] fix: bilinear table with an even number of descending
 points

The rows or columns were swapped once too often, so the two middle ones of a
descending axis with an even number of points were left in the wrong order.
---
 ms-utils/math/approximation/TsBilinearInterpolator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 5139e0a..4a469f9 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -200,7 +200,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (x[1] < x[0]) {
         /// - X array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mM/2+1; ++i) {
+        for (int i = 0; i < (mM+1)/2; ++i) {
             mX[i] = x[mM - i - 1];
             mX[mM - i - 1] = x[i];
             for (int j = 0; j < mN; ++j) {
@@ -218,7 +218,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     if (y[1] < y[0]) {
         /// - Y array is strictly descending,so make ascending and change order of
         ///   Z array to reflect changes made to X.
-        for (int i = 0; i < mN/2+1; ++i) {
+        for (int i = 0; i < (mN+1)/2; ++i) {
             mY[i] = y[mN - i - 1];
             mY[mN - i - 1] = y[i];
             for (int j = 0; j < mM; ++j) {
-- 
2.43.0


From 0067832f6a4003c57d225ae8487b90fc0cbc173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 14/85] fix: interpolators after a rejected or repeated
 initialization

A rejected bilinear initialization left a row count without rows, so destroying
the object crashed; a repeated one leaked the previous table and neither
reported success. A repeated linear initialization kept the cell index of the
previous table, which could lie past the end of the new one.
---
 .../math/approximation/TsBilinearInterpolator.cpp   | 13 +++++++++----
 .../math/approximation/TsLinearInterpolator.cpp     |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 4a469f9..fc86368 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -85,10 +85,11 @@ TsBilinearInterpolator::~TsBilinearInterpolator()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void TsBilinearInterpolator::cleanup()
 {
-    for (int i = 0; i < mM; ++i) {
-        delete [] mZ[i];
-        mZ[i] = 0;
-    } {
+    if (mZ) {
+        for (int i = 0; i < mM; ++i) {
+            delete [] mZ[i];
+            mZ[i] = 0;
+        }
         delete [] mZ;
         mZ = 0;
     } {
@@ -129,6 +130,7 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     /// - Reset the initialization complete flag.
     mInitFlag = false;
 
+    cleanup();
     mM = m;
     mN = n;
 
@@ -262,6 +264,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     mN = n;
     mI = 0;
     mJ = 0;
+
+    /// - Set the flag to indicate successful initialization.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/ms-utils/math/approximation/TsLinearInterpolator.cpp b/ms-utils/math/approximation/TsLinearInterpolator.cpp
index eed1a52..8c009d3 100644
--- a/ms-utils/math/approximation/TsLinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsLinearInterpolator.cpp
@@ -163,6 +163,7 @@ void TsLinearInterpolator::init(const double *x, const double *z, const int n,
         }
     }
 
+    mI    = 0;
     mMinX = minX;
     mMaxX = maxX;
     mMinY = -DBL_EPSILON;
-- 
2.43.0


From b69c449f5c192bc0d2b334d9c208a6d8f35fac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 15/85] fix: Rankine to Celsius conversion subtracts the
 Fahrenheit offset

TS_convert_degR_to_degC subtracted 459.67 (0 F in Rankine) instead of 491.67
(0 C in Rankine), so its result was 17.8 degrees too high.
---
 ms-utils/units/TS_conversions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/units/TS_conversions.c b/ms-utils/units/TS_conversions.c
index 449f95b..407faa1 100644
--- a/ms-utils/units/TS_conversions.c
+++ b/ms-utils/units/TS_conversions.c
@@ -307,7 +307,7 @@ double TS_convert_degR_to_degF(                     // RETURN  F   temperature i
 double TS_convert_degR_to_degC(                     // RETURN  C   temperature in Celsius
                                  double  temperature) // IN      R   temperature in Rankine
 {
-    return ( (temperature - 459.67) * 5.0 / 9.0 );
+    return ( (temperature - 491.67) * 5.0 / 9.0 );
 }
 
 double TS_convert_degR_to_degK(                     // RETURN  K   temperature in Kelvin
-- 
2.43.0


From 8c85316c00313af54c6fd06c91741a100fb764a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 16/85] fix: random seed of INT_MIN indexes outside the table

std::abs(INT_MIN) overflows and stays negative, so the table of random values
was read at a negative index. Reduce the seed before taking its magnitude.
---
 ms-utils/math/TS_random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/TS_random.cpp b/ms-utils/math/TS_random.cpp
index 12ce7da..5dec432 100644
--- a/ms-utils/math/TS_random.cpp
+++ b/ms-utils/math/TS_random.cpp
@@ -251,7 +251,7 @@ const int TS_random::RAND_CNT = 1000;
 int TS_random::boundSeed(
    int seed )
 {
-    return ( std::abs( seed ) % RAND_CNT );
+    return ( std::abs( seed % RAND_CNT ) );
 }
 
 
-- 
2.43.0


From d86529efd4bdc71fc1546b5b0f33e8376fe07ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 17/85] fix: random integers over ranges wider than an int

The size of the range was computed in int and overflowed, so the result was
outside the requested range, e.g. negative for a maximum of INT_MAX.
---
 ms-utils/math/TS_random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/TS_random.cpp b/ms-utils/math/TS_random.cpp
index 5dec432..6bc3e10 100644
--- a/ms-utils/math/TS_random.cpp
+++ b/ms-utils/math/TS_random.cpp
@@ -343,9 +343,9 @@ int TS_random::randomInt(
         maxValue = temp;
     }
 
-    int range = maxValue - minValue + 1;
+    double range = static_cast<double>(maxValue) - minValue + 1.0;
 
-    return static_cast<int>(std::floor( RAND_VALUES[seed] * range )) + minValue;
+    return static_cast<int>(std::floor( RAND_VALUES[seed] * range ) + minValue);
 }
 
 
-- 
2.43.0


From c9b08f8e6ced6b1d8f92f2a889c625a56b9b293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 18/85] fix: segments that enter a cylinder through its end
 faces

A segment was rejected when it leaves or enters the infinite cylinder outside
its own ends, although it can still enter through an end face in between, and
the end face test on the first face used k + 2t(mn + t nn) where the squared
distance is k + t(2mn + t nn). Both are listed errata of the cited algorithm.
---
 ms-utils/math/intersect/LineSegmentIntersect.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ms-utils/math/intersect/LineSegmentIntersect.cpp b/ms-utils/math/intersect/LineSegmentIntersect.cpp
index 6db5a73..8e97406 100644
--- a/ms-utils/math/intersect/LineSegmentIntersect.cpp
+++ b/ms-utils/math/intersect/LineSegmentIntersect.cpp
@@ -241,8 +241,6 @@ bool LineSegmentIntersect::cylinder(
     }
 
     t = (-b - std::sqrt(discr)) / a;
-    if (t < 0.0 || t > 1.0f) return false; // Intersection lies outside segment
-
     if (md + t * nd < 0.0) {
 
         // Intersection outside cylinder on 'p' side
@@ -250,9 +248,10 @@ bool LineSegmentIntersect::cylinder(
             return false;
         }
         t = -md / nd;
+        if (t < 0.0 || t > 1.0) return false; // Intersection lies outside segment
 
         // Keep intersection if DOT(S(t) - p, S(t) - p) <= r^2
-        if (k + 2 * t * (mn + t * nn) <= 0.0) {
+        if (k + t * (2 * mn + t * nn) <= 0.0) {
             if (NULL != x) {
                 POINT_ON_LINE(x, sa,sb,t);
             }
@@ -268,6 +267,7 @@ bool LineSegmentIntersect::cylinder(
             return false; // Segment pointing away from endcap
         }
         t = (dd - md) / nd;
+        if (t < 0.0 || t > 1.0) return false; // Intersection lies outside segment
 
         // Keep intersection if DOT(S(t) - q, S(t) - q) <= r^2
         if (k + dd - 2 * md + t * (2 * (mn - nd) + t * nn) <= 0.0) {
@@ -281,6 +281,8 @@ bool LineSegmentIntersect::cylinder(
         }
     }
 
+    if (t < 0.0 || t > 1.0f) return false; // Intersection lies outside segment
+
     if (NULL != x) {
         POINT_ON_LINE(x, sa,sb,t);
     }
-- 
2.43.0


From 8982385d7e216d07d6bd821d0dca231dbe1e15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 19/85] fix: XML parser loops for ever on text cut off at the
 end of the document

Reading text that has no end tag returned a pointer to the terminator, and the
caller stepped one back to keep the '<' that is not there, so the last
character was parsed again and again until memory ran out.
---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index d5ca61c..098dee7 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -629,7 +629,7 @@ const char* TiXmlBase::ReadText(	const char* p,
 	}
 	if ( p && *p )
 		p += std::strlen( endTag );
-	return p;
+	return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From cf8d607143e2fdc03756228de33739c577986638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 20/85] fix: XML parser loops for ever on a cut off three byte
 character

Stamping the position of a byte 0xEF that is not followed by two more bytes
did not advance, so parsing such a document never ended.
---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index 098dee7..06dc635 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -270,6 +270,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// Cut off at the end of the text.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From aad7c26e91a625191f4f6d2bbf078a27167f2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 21/85] fix: XML parser aborts on a cut off declaration

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index 06dc635..e8a4378 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -1599,6 +1599,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+			break;
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
-- 
2.43.0


From 9fe43076d2ed6d8c3788c4bb184d364bb2854c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 22/85] fix: XML parser aborts on a CDATA mark inside a closing
 tag

---
 ms-utils/parsing/tinyxml/tinyxmlparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
index e8a4378..b143810 100644
--- a/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
+++ b/ms-utils/parsing/tinyxml/tinyxmlparser.cpp
@@ -986,12 +986,11 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				in->get();
 
 				// Early out if we find the CDATA id.
-				if ( c == '[' && tag->size() >= 9 )
+				if ( !closingTag && c == '[' && tag->size() >= 9 )
 				{
 					std::size_t len = tag->size();
 					const char* start = tag->c_str() + len - 9;
 					if ( strcmp( start, "<![CDATA[" ) == 0 ) {
-						assert( !closingTag );
 						break;
 					}
 				}
-- 
2.43.0


From 45691f2ee2ed7ab3889a47b6ec40852f41b35080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 23/85] fix: XML file search misses names sorting before '.'
 and takes a file named xml

---
 ms-utils/fileSearch/XmlFileSearch.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ms-utils/fileSearch/XmlFileSearch.cpp b/ms-utils/fileSearch/XmlFileSearch.cpp
index c345721..2851110 100644
--- a/ms-utils/fileSearch/XmlFileSearch.cpp
+++ b/ms-utils/fileSearch/XmlFileSearch.cpp
@@ -116,10 +116,9 @@ std::string XmlFileSearch::obtainExt(
     std::string ext = "";
 
     //Finds the last period character of the file name
-    if((pathName.compare(".")) != static_cast<int>(std::string::npos))
+    const std::string::size_type period = pathName.find_last_of(".");
+    if(period != std::string::npos)
     {
-        int period = pathName.find_last_of(".");
-
         //Use  + 1 so will not include the period.
         ext = pathName.substr(period + 1);
     }
-- 
2.43.0


From bc78ac4ec3bfb9a5a28d16a1da45498c14ac3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 24/85] fix: CholeskyLdu skips positive off-diagonal elements
 during decomposition

---
 ms-utils/math/linear_algebra/CholeskyLdu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/math/linear_algebra/CholeskyLdu.cpp b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
index 371baf8..d2c20e5 100644
--- a/ms-utils/math/linear_algebra/CholeskyLdu.cpp
+++ b/ms-utils/math/linear_algebra/CholeskyLdu.cpp
@@ -84,7 +84,7 @@ void CholeskyLdu::Decompose(double *A, int n)
             const double limit = -1.0E-100;
             for (int k = 0; k < j; k++) {
                 /// - Skip operations on zero to save time.
-                if (limit > *(p_i + k) and limit > *(p_j + k)) {
+                if (std::fabs(*(p_i + k)) > -limit and std::fabs(*(p_j + k)) > -limit) {
                     *(p_i + j) -= *(p_i + k) * *(p_j + k);
                 }
             }
@@ -173,7 +173,7 @@ void CholeskyLdu::Decompose(double *A, int n, std::vector<int>& r)
             double *p_j_k = p_j;
             for (int k = 0; k < j; k++, p_i_k += vrk[k], p_j_k += vrk[k]) {
                 /// - Skip operations on zero to save time.
-                if (limit > *(p_i_k) and limit > *(p_j_k)) {
+                if (std::fabs(*(p_i_k)) > -limit and std::fabs(*(p_j_k)) > -limit) {
                     *(p_i_j) -= *(p_i_k) * *(p_j_k);
                 }
             }
-- 
2.43.0


From a74abca8a50711b429db18321d56177b13c51ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 25/85] fix: rigid body with an offset CM mixes moments about
 the CM and about the body origin

---
 .../GunnsDynSingleRigidStateDeriv.cpp         | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
index 5c91331..522ce76 100755
--- a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
+++ b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
@@ -247,6 +247,16 @@ void GunnsDynSingleRigidStateDeriv::buildSourceVector()
         mSourceVector[0] -= mGyroForce[0];
         mSourceVector[1] -= mGyroForce[1];
         mSourceVector[2] -= mGyroForce[2];
+
+        /// - The rotational equations are about the body frame origin, so they also get the moment
+        ///   of the gyroscopic pseudo-force:  {gyro_torque} += {cm} X {gyro_force}
+        double gyroMoment[3];
+        GunnsDynUtils::crossV3(gyroMoment, mMassProps.mCM, mGyroForce);
+        GunnsDynUtils::addV(mGyroTorque, mGyroTorque, gyroMoment, 3);
+
+        mSourceVector[3] -= gyroMoment[0];
+        mSourceVector[4] -= gyroMoment[1];
+        mSourceVector[5] -= gyroMoment[2];
     } else {
         GunnsDynUtils::zeroV(mGyroForce, 3);
     }
@@ -275,18 +285,14 @@ void GunnsDynSingleRigidStateDeriv::sumAppliedForces()
 void GunnsDynSingleRigidStateDeriv::sumAppliedTorques()
 {
     GunnsDynUtils::zeroV(mAppliedTorque, 3);
-    const bool isCmOffset = mMassProps.isCmOffset();
     for (unsigned int i=0; i<mAppliedForces.size(); ++i) {
         if (mAppliedForces[i]->mActive) {
             /// - Add applied force location crossed with the force.  The force locations are in the
-            ///   body frame so we must move them to relative to the CM when there's a CM offset.
-            double location[3];
+            ///   body frame, and the rotational equations (with the shifted inertia Io) are about
+            ///   the body frame origin, so the moment is taken about the origin with or without a
+            ///   CM offset.
             double torque[3];
-            GunnsDynUtils::setV(location, mAppliedForces[i]->mLocation, 3);
-            if (isCmOffset) {
-                GunnsDynUtils::subtractV(location, location, mMassProps.mCM, 3);
-            }
-            GunnsDynUtils::crossV3(torque, location, mAppliedForces[i]->mForce);
+            GunnsDynUtils::crossV3(torque, mAppliedForces[i]->mLocation, mAppliedForces[i]->mForce);
             GunnsDynUtils::addV(mAppliedTorque, mAppliedTorque, torque, 3);
         }
     }
-- 
2.43.0


From 4cdc5eee20db9a743cc3e3f0d9f9774d4d5362e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 26/85] fix: C Choleski decomposition drops positive
 off-diagonal elements

---
 ms-utils/math/linear_algebra/choleski_ldu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/linear_algebra/choleski_ldu.c b/ms-utils/math/linear_algebra/choleski_ldu.c
index e661710..f1cee67 100644
--- a/ms-utils/math/linear_algebra/choleski_ldu.c
+++ b/ms-utils/math/linear_algebra/choleski_ldu.c
@@ -109,7 +109,7 @@ int Choleski_LDU_Decomposition(double *A, int n)
             *(p_i + j) -= *(p_i + k) * *(p_j + k);
 
          /// - Modified to protect for underflow.
-         if (*(p_i + j) > -1.0E-100) *(p_i + j) = 0.0;
+         if (*(p_i + j) > -1.0E-100 && *(p_i + j) < 1.0E-100) *(p_i + j) = 0.0;
       }
 
 //            Calculate the diagonal element D[i] and L[i][j].
-- 
2.43.0


From 2c10b4dd0a10f763589eab90e72bf9eee9409ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 27/85] fix: tripped switch stays closed after its fail-closed
 malfunction is removed or another trip resets

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp  | 3 +++
 aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp | 6 ++++--
 aspects/electrical/Switch/Switch.cpp                | 3 +++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index e227251..aab29df 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -420,6 +420,9 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a tripped switch is open, including after the fail-closed malfunction is removed
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
index c8a11f6..eebbb86 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil2.cpp
@@ -287,7 +287,9 @@ void GunnsElectSwitchUtil2::updateState()
         mPosition = true;
     } else if (mMalfFailOpen) {
         mPosition = false;
-    } else if (not (isTripped() or isWaitingToTrip())) {
+    } else if (isTripped()) {
+        mPosition = false;
+    } else if (not isWaitingToTrip()) {
         mPosition = mPositionCommand;
     }
 }
@@ -346,7 +348,7 @@ void GunnsElectSwitchUtil2::updateTrips(const double current, const double volta
                 /// - Upon reset of the voltage trip, the switch automatically closes if it is
                 ///   still commanded to close.  This feature can be avoided by the user resetting
                 ///   the position command to open whenever the switch trips open.
-                if (mPositionCommand) {
+                if (mPositionCommand and not isTripped()) {
                     mPosition = true;
                 }
             }
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index d8d5676..4798587 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -414,6 +414,9 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
     // apply commanded switch position
     if (!isTripped() && !isWaitingToTrip() && powerSupplyValid) {
         mSwitchIsClosed = mSwitchCommandedClosed;
+    } else if (mPosTrip || mNegTrip) {
+        // a tripped switch is open, including after the fail-closed malfunction is removed
+        mSwitchIsClosed = false;
     }
 
     // if power supply is off then open the switch and reset all trip flags
-- 
2.43.0


From 9fba11e3aa361c6f4d20bd57ac04c9cb327cb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 28/85] fix: switch resistance malfunction above 100 percent is
 rescaled on every update

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp | 7 ++++---
 aspects/electrical/Switch/Switch.cpp               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index aab29df..edac8cf 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -409,10 +409,11 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
 
     // Switch resistance fail malfunction
     if (mMalfFailResistance) {
-        if (mMalfFailResistPercent > 1.0) {   // if user value is 0 to 100 scale it to 0 to 1
-            mMalfFailResistPercent /= 100.0;
+        double scale = mMalfFailResistPercent;
+        if (scale > 1.0) {   // if user value is 0 to 100 scale it to 0 to 1
+            scale /= 100.0;
         }
-        mActiveSwitchResistance = mDefaultSwitchResistance * mMalfFailResistPercent;
+        mActiveSwitchResistance = mDefaultSwitchResistance * scale;
     } else {
         mActiveSwitchResistance = mDefaultSwitchResistance;
     }
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index 4798587..a6b9790 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -403,10 +403,11 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
 
     // Switch resistance fail malfunction
     if (mMalfFailResistance) {
-        if (mMalfFailResistPercent > 1.0) {   // if user value is 0 to 100 scale it to 0 to 1
-            mMalfFailResistPercent /= 100.0;
+        double scale = mMalfFailResistPercent;
+        if (scale > 1.0) {   // if user value is 0 to 100 scale it to 0 to 1
+            scale /= 100.0;
         }
-        mActiveSwitchResistance = mDefaultSwitchResistance * mMalfFailResistPercent;
+        mActiveSwitchResistance = mDefaultSwitchResistance * scale;
     } else {
         mActiveSwitchResistance = mDefaultSwitchResistance;
     }
-- 
2.43.0


From 48cbb0c0fc4a02c1a22d72c7e19f57b0499a9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 29/85] fix: over-current protection is not restored when the
 ignore current trip malfunction is removed

---
 aspects/electrical/Switch/GunnsElectSwitchUtil.cpp | 6 ++++--
 aspects/electrical/Switch/Switch.cpp               | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
index edac8cf..17fa1f8 100755
--- a/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
+++ b/aspects/electrical/Switch/GunnsElectSwitchUtil.cpp
@@ -398,9 +398,11 @@ void GunnsElectSwitchUtil::updateSwitchState(const bool powerSupplyValid)
     // block/ignore current trips only when malf active other wise take the value from the signal ICD.
     if (mMalfIgnoreCurrentTrip) {
         mOverCurrentProtection = false;
-    } else {
-        // go back to whatever the signal aspect sends over the ICD
+    } else if (mLastMalfIgnoreCurrentTrip) {
+        // set the configured protection back when the malf is removed
+        mOverCurrentProtection = mConfigDataCurrentProtection;
     }
+    mLastMalfIgnoreCurrentTrip = mMalfIgnoreCurrentTrip;
 
     // sanity check for minimum switch resistance, if someone changes it directly
     if (mDefaultSwitchResistance <= 0.0) {
diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index a6b9790..089fb6a 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -392,9 +392,11 @@ void Switch::updateSwitchState(const bool powerSupplyValid) {
     // block/ignore current trips only when malf active other wise take the value from the signal ICD.
     if (mMalfIgnoreCurrentTrip) {
         mOverCurrentProtection = false;
-    } else {
-        // go back to whatever the signal aspect sends over the ICD
+    } else if (mLastMalfIgnoreCurrentTrip) {
+        // set the configured protection back when the malf is removed
+        mOverCurrentProtection = mConfigDataCurrentProtection;
     }
+    mLastMalfIgnoreCurrentTrip = mMalfIgnoreCurrentTrip;
 
     // sanity check for minimum switch resistance, if someone changes it directly
     if (mDefaultSwitchResistance <= 0.0) {
-- 
2.43.0


From b8c907295e548bd177d4fb1dbbb1f5a29b40a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 30/85] fix: power-function resistor tangent line conducts
 backwards when its potential is reversed

---
 aspects/electrical/resistive/GunnsResistorPowerFunction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
index c4854ae..9cfdf69 100755
--- a/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
+++ b/aspects/electrical/resistive/GunnsResistorPowerFunction.cpp
@@ -251,6 +251,11 @@ void GunnsResistorPowerFunction::minorStep(const double dt        __attribute__(
             const double current = std::pow(dPG, expInv);
             mSystemAdmittance    = expInv * std::pow(dPG, (expInv - 1.0));
             mSystemSource        = current - mSystemAdmittance * dPLimit;
+            if (mPotentialVector[0] < mPotentialVector[1]) {
+                /// - The curve is an odd function, so the tangent's intercept changes sign with the
+                ///   potential drop.
+                mSystemSource = -mSystemSource;
+            }
 
         } else {
             /// - The is the default, and in our opinion, far better configuration.  The
-- 
2.43.0


From 6b828fdb90ed91e24077470a1038bc75b89e248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 31/85] fix: converter input holds a load current at negative
 voltage after its power load is gone

---
 aspects/electrical/Converter/GunnsElectConverterInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Converter/GunnsElectConverterInput.cpp b/aspects/electrical/Converter/GunnsElectConverterInput.cpp
index 56865a1..9a82e22 100755
--- a/aspects/electrical/Converter/GunnsElectConverterInput.cpp
+++ b/aspects/electrical/Converter/GunnsElectConverterInput.cpp
@@ -385,7 +385,7 @@ void GunnsElectConverterInput::minorStep(const double dt __attribute__((unused))
         double iuvLimit = static_cast<double>(mInputUnderVoltageTrip.getLimit());
         if (mEnabled and not (mOverloadedState or mInputOverVoltageTrip.isTripped()
                 or mInputUnderVoltageTrip.isTripped())) {
-            if (mPotentialVector[0] < 0.0) {
+            if (mPotentialVector[0] < 0.0 and mInputPower > 0.0) {
                 /// - If node potential is negative, then hold the current source constant to allow
                 ///   the network to converge.  If the network ends up converging at negative
                 ///   voltage, then we'll either undervolt trip off, enter the overloaded state, or
-- 
2.43.0


From 4fe2eb8da3184e71adc71ac83657bc3ae5aed0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 32/85] fix: a fully depleted battery can be recharged, and its
 cells share the charging current

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 031cb64..245b9ba 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -374,10 +374,12 @@ void GunnsElectBattery::updateFlux(const double timeStep, const double flux __at
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsElectBattery::updateCells(const double timeStep)
 {
-    /// - Count the number of cells contributing to the load.
+    /// - Count the number of cells contributing to the load.  When charging, depleted cells that have
+    ///   not failed also accept charge.
     int count = 0;
     for (unsigned int i = 0; i < mNumCells; i++) {
-        if (mCells[i].getEffectiveSoc() > DBL_EPSILON) {
+        if (mCells[i].getEffectiveSoc() > DBL_EPSILON
+                or (mFlux < 0.0 and mCells[i].getEffectiveCapacity() > DBL_EPSILON)) {
             count++;
         }
     }
-- 
2.43.0


From 2bb7e25b2fe759b57c7c44f6f604cb058ad5110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 33/85] fix: resetting the battery thermal runaway malfunction
 clears all cells when its interval has just elapsed

---
 aspects/electrical/Batt/GunnsElectBattery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Batt/GunnsElectBattery.cpp b/aspects/electrical/Batt/GunnsElectBattery.cpp
index 245b9ba..19463eb 100755
--- a/aspects/electrical/Batt/GunnsElectBattery.cpp
+++ b/aspects/electrical/Batt/GunnsElectBattery.cpp
@@ -258,7 +258,7 @@ void GunnsElectBattery::updateState(const double timeStep __attribute__((unused)
             mThermalRunawayCell++;
         }
     } else {
-        if (mThermalRunawayTimer > 0.0) {
+        if (mThermalRunawayTimer > 0.0 or mThermalRunawayCell > 0) {
             /// - On removal of this malfunction, shut off all the cell's malfunctions.  We only
             ///   do this on the first pass after the malf is removed, so as to not interfere with
             ///   individual cell's malf used at other times.
-- 
2.43.0


From ef37048324044b8d18a6dbc8bde0575406341f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 34/85] fix: a photovoltaic string has no maximum power point
 when its shunt takes all of the source current

---
 aspects/electrical/SolarArray/GunnsElectPvString.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvString.cpp b/aspects/electrical/SolarArray/GunnsElectPvString.cpp
index 5cdf07c..f15cc92 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvString.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvString.cpp
@@ -837,16 +837,17 @@ void GunnsElectPvString::updateMpp()
     const double ish   = mShuntVoltageDrop / mEqProps->mRsh;
     const double is    = mEqProps->mIL - ish;
 
-    /// - Maximum Power Point.
+    /// - Maximum Power Point.  There is none when the shunt takes all of the source current.
     mMpp.mPower = std::max(0.0, power - mShuntVoltageDrop*ish - is*mSeriesVoltageDrop
                 - is*is*mNumActiveCells*mConfig->mCellConfig.mSeriesResistance);
 
-    if (mMpp.mPower > 0.0) {
+    if (mMpp.mPower > 0.0 and is > 0.0) {
         mMpp.mVoltage     = std::max(DBL_EPSILON, mShuntVoltageDrop
                           - is*mEqProps->mRs - mSeriesVoltageDrop);
         mMpp.mCurrent     = mMpp.mPower / mMpp.mVoltage;
         mMpp.mConductance = mMpp.mCurrent / mMpp.mVoltage;
     } else {
+        mMpp.mPower       = 0.0;
         mMpp.mVoltage     = 0.0;
         mMpp.mCurrent     = 0.0;
         mMpp.mConductance = 0.0;
-- 
2.43.0


From 7d003c07f2ee6f9c0024cf65d215b9cbc1a825f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 35/85] fix: a photo flux override activated right after
 another has ended starts from its beginning

---
 aspects/electrical/SolarArray/GunnsElectPvString.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvString.hh b/aspects/electrical/SolarArray/GunnsElectPvString.hh
index 8c7d568..e792c8a 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvString.hh
+++ b/aspects/electrical/SolarArray/GunnsElectPvString.hh
@@ -453,6 +453,9 @@ inline double GunnsElectPvCellEquivCircuit::computeVoltage(const double current
 inline void GunnsElectPvStringInputData::setMalfPhotoFlux(const bool flag, const double magnitude,
                                                           const double duration, const double ramptime)
 {
+    if (flag and not mMalfPhotoFluxFlag) {
+        mPhotoFluxElapsedTime = 0.0;
+    }
     mMalfPhotoFluxFlag      = flag;
     mMalfPhotoFluxMagnitude = magnitude;
     mMalfPhotoFluxDuration  = duration;
-- 
2.43.0


From e6706f8edf5f4193c72d1748e336435d38370aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 36/85] fix: the shunt power of a shunting regulator no longer
 persists after it stops shunting

---
 aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
index f5b5e7d..66a7b14 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
@@ -462,7 +462,9 @@ void GunnsElectPvRegShunt::updateMaxOutputs()
     mArray->predictLoadAtVoltage(mPvBulkPowerAvail, mInputConductance, mRegulatedVoltage);
 
     /// - Load all strings at the regulated voltage and sum their resulting output currents.
+    ///   No strings are shunted, so there is no shunt power until some are shunted this pass.
     mMaxRegCurrent = 0.0;
+    mShuntPower    = 0.0;
     for (unsigned int section=0; section<mArray->getNumSections(); ++section) {
         for (unsigned int string=0; string<mArray->mSections[section].getNumStrings(); ++string) {
             mArray->mSections[section].mStrings[string].setShunted(false);
-- 
2.43.0


From e1b2c7b34487c10952c675430717f47030a47dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 37/85] fix: the converting regulator leaves its SHORT state
 when its output rises beyond the array corner

---
 aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp b/aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp
index b08a747..b61cef7 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegConv.cpp
@@ -407,6 +407,10 @@ bool GunnsElectPvRegConv::updateRegulatorState()
         mArray->loadAtPower(mInputPower, (SHORT == mState));
         const double inputVoltage = mArray->getTerminal().mVoltage;
 
+        /// - The output is beyond the corner of the converted array curve, where the short-circuit
+        ///   side no longer applies.
+        const bool beyondCorner = (mPotentialVector[0] > mArray->getIvCornerVoltage() * mVoltageConvLimit);
+
         /// - Change states based on the array's voltage under load load.  To prevent oscillations
         ///   between states causing network convergence failure, we only allow one up-mode (a
         ///   transition from OFF/SHORT->SAG->REG) per major step.
@@ -416,7 +420,8 @@ bool GunnsElectPvRegConv::updateRegulatorState()
                 mState = REG;
             }
 
-        } else if (inputVoltage > mArray->getIvCornerVoltage() or (backVoltage and SHORT == mState)) {
+        } else if (inputVoltage > mArray->getIvCornerVoltage() or
+                  ((backVoltage or beyondCorner) and SHORT == mState)) {
             if (SHORT == mState) {
                 if (not mStateUpmodeLatch) {
                     mStateUpmodeLatch = true;
-- 
2.43.0


From 5968a0d5d2658d9e7e21c6843421a1ee881f1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 38/85] fix: thermal panel with zero area or absorptivity
 started with a NaN incident flux

---
 aspects/thermal/GunnsThermalPanel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/thermal/GunnsThermalPanel.cpp b/aspects/thermal/GunnsThermalPanel.cpp
index ee63732..e489a6c 100755
--- a/aspects/thermal/GunnsThermalPanel.cpp
+++ b/aspects/thermal/GunnsThermalPanel.cpp
@@ -150,7 +150,7 @@ void GunnsThermalPanel::initialize(const GunnsThermalPanelConfigData& configData
     mSurfaceArea = configData.cSurfaceArea;
 
     /// - Set mIncidentHeatFluxPerArea, nominally set by the SimBus, to an initial value.
-    mIncidentHeatFluxPerArea = mDemandedFlux / (mAbsorptivity * mSurfaceArea);
+    mIncidentHeatFluxPerArea = MsMath::protectedDiv(mDemandedFlux, mAbsorptivity * mSurfaceArea);
 
     /// - Set init flag on successful validation.
     mInitFlag = true;
-- 
2.43.0


From 31220184d239e41f41613d9f71ab756d4eed4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 39/85] fix: thermal capacitor's initial temperature override
 value was lost at network initialization

---
 aspects/thermal/GunnsThermalCapacitor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aspects/thermal/GunnsThermalCapacitor.cpp b/aspects/thermal/GunnsThermalCapacitor.cpp
index da58761..6f1092f 100755
--- a/aspects/thermal/GunnsThermalCapacitor.cpp
+++ b/aspects/thermal/GunnsThermalCapacitor.cpp
@@ -158,6 +158,7 @@ void GunnsThermalCapacitor::initialize(const GunnsThermalCapacitorConfigData& co
     /// - Initialize from input data.
     if (inputData.iTemperatureOverrideFlag) {
         setPortOverride(0, inputData.iTemperatureOverrideValue);
+        initPotential(inputData.iTemperatureOverrideValue);
     }
 
     /** Set init flag on successful validation. */
-- 
2.43.0


From aa967e96ab7675412e69e06617b42bee0090c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 40/85] fix: a mixture outside the explosive limit is not
 treated as burning in the unstable band

---
 ms-utils/properties/CombustCH4.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ms-utils/properties/CombustCH4.cpp b/ms-utils/properties/CombustCH4.cpp
index 437d4c7..ec8d425 100644
--- a/ms-utils/properties/CombustCH4.cpp
+++ b/ms-utils/properties/CombustCH4.cpp
@@ -154,8 +154,8 @@ void CombustCH4::updateCompound(double* moleRatios, FluidProperties::FluidType*
         mCombustionOccurs = false;
     }
 
-    /// - Check if the mixture is within the unstable region.
-    if(mInitialOxidizer / mInitialFuel > 1.65957 and mInitialOxidizer / mInitialFuel < 2.0){
+    /// - Check if the burning mixture is within the unstable region.
+    if(mCombustionOccurs and mInitialOxidizer / mInitialFuel > 1.65957 and mInitialOxidizer / mInitialFuel < 2.0){
         mUnstable = true;
     }
 
-- 
2.43.0


From 212e6b5ba58e8438a7036094469a5256f04d9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 41/85] fix: HS message filter purges the oldest message, not
 the second or past the end

---
 ms-utils/simulation/hs/TsHsMsgStdFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
index fa3c65b..28e8b3a 100644
--- a/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
+++ b/ms-utils/simulation/hs/TsHsMsgStdFilter.cpp
@@ -97,7 +97,8 @@ void TsHsMsgStdFilter::purgeMessages()
 
     TsHsMessageMap::iterator oldest = mMessageMap.begin();
 
-    for (TsHsMessageMap::iterator iter = ++oldest; iter != mMessageMap.end(); iter++)
+    TsHsMessageMap::iterator iter = oldest;
+    for (++iter; iter != mMessageMap.end(); iter++)
     {
         if ((*iter).second.back() < (*oldest).second.back())
         {
-- 
2.43.0


From 326b5e120637118dabde4ebb106dc8f939760930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 42/85] fix: mission clock hours and minutes before launch

---
 ms-utils/simulation/timer/TS_timer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ms-utils/simulation/timer/TS_timer.c b/ms-utils/simulation/timer/TS_timer.c
index 48077e8..26db1de 100644
--- a/ms-utils/simulation/timer/TS_timer.c
+++ b/ms-utils/simulation/timer/TS_timer.c
@@ -73,9 +73,9 @@ void TS_timer_update(TS_TIMER_TYPE *timer_ptr, double dt)
    //------------------------------------------------------------
    // Multiply by pre-launch flag so that these display (time) variables are not negative
    //------------------------------------------------------------
-   days  = pre * ( (int)seconds / 86400 );
-   hours = pre * ( (int)(seconds / 3600) - (days * 24) );
-   mins  = pre * ( (int)(seconds / 60) - (days * 1440) - (hours * 60) );
+   days  = pre * (int)seconds / 86400;
+   hours = pre * (int)(seconds / 3600) - (days * 24);
+   mins  = pre * (int)(seconds / 60) - (days * 1440) - (hours * 60);
    secs  = pre * ( (int)seconds % 60 );
 
    timer_ptr->pre     = pre;
-- 
2.43.0


From f1bcde6de94af0dc8d5b36fcff0c5cb3705984d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 43/85] fix: smoke detector uses its configured sensor ranges
 and voltage conversions

---
 gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
index 7e0fd08..f57b6b8 100644
--- a/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
+++ b/gunns-ts-models/common/sensors/TsOpticSmokeDetector.cpp
@@ -152,8 +152,14 @@ void TsOpticSmokeDetector::initialize(
     configD.bitRecoveryTime      = configData.bitRecoveryTime;
     configD.obsOffValue          = configData.obsOffValue;
     configD.scatOffValue         = configData.scatOffValue;
+    configD.obsPercentVoltSlope  = configData.obsPercentVoltSlope;
+    configD.obsVoltIntercept     = configData.obsVoltIntercept;
+    configD.scatPercentVoltSlope = configData.scatPercentVoltSlope;
+    configD.scatVoltIntercept    = configData.scatVoltIntercept;
 
     configD.obsSensorConfigD.mMinRange     = configD.obsMinPercentage;
+    configD.obsSensorConfigD.mMaxRange     = configD.obsMaxPercentage;
+    configD.scatterSensorConfigD.mMaxRange = configD.scatterMaxPercentage;
     configD.obsSensorConfigD.mOffValue     = configD.obsOffValue;
     configD.scatterSensorConfigD.mOffValue = configD.scatOffValue;
 
-- 
2.43.0


From 70f928ca0f1e6ec1d55cb7b1a5ab5ad2724a59bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 44/85] fix: evaluate optimiser input constraints on the state
 being constrained

---
 core/optimization/GunnsOptimBase.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/optimization/GunnsOptimBase.cpp b/core/optimization/GunnsOptimBase.cpp
index 0b60583..aa93f30 100755
--- a/core/optimization/GunnsOptimBase.cpp
+++ b/core/optimization/GunnsOptimBase.cpp
@@ -104,7 +104,9 @@ double GunnsOptimBase::uniformRand() const
 ///
 /// @throws   std::range_error
 ///
-/// @details  Applies the MC input variable constraints to the given vector.
+/// @details  Applies the MC input variable constraints to the given vector.  The constraint functions
+///           read the model variables, so these are temporarily set to the values in the vector to
+///           evaluate the constraints on the given state, and restored afterwards.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsOptimBase::constrainInputs(std::vector<double>& vec)
 {
@@ -112,7 +114,21 @@ void GunnsOptimBase::constrainInputs(std::vector<double>& vec)
     if (vec.size() != mInStatesMaster->size()) {
         throw std::range_error(mName + " constrainInputs vec argument size mismatch with number of MC inputs.");
     }
+    /// - Load the given state into the model variables, saving their current values.
+    std::vector<double> savedValues;
+    for (unsigned int i=0; i<vec.size(); ++i) {
+        savedValues.push_back(*mInStatesMaster->at(i).mAddress);
+    }
+    for (unsigned int i=0; i<vec.size(); ++i) {
+        *mInStatesMaster->at(i).mAddress = vec.at(i);
+    }
+    /// - Apply each constraint, including to the model variables for use by the later constraints.
     for (unsigned int i=0; i<vec.size(); ++i) {
         mInStatesMaster->at(i).applyConstraints(&vec.at(i));
+        *mInStatesMaster->at(i).mAddress = vec.at(i);
+    }
+    /// - Restore the model variables.
+    for (unsigned int i=0; i<vec.size(); ++i) {
+        *mInStatesMaster->at(i).mAddress = savedValues.at(i);
     }
 }
-- 
2.43.0


From ec0c8ed13086f559ad0226f0273370d621a96b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 45/85] fix: open path B of the three-way check valve at its
 own pressure

---
 aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
index 1d58309..c3a28ab 100644
--- a/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
+++ b/aspects/fluid/conductor/GunnsFluid3WayCheckValve.cpp
@@ -304,7 +304,7 @@ double GunnsFluid3WayCheckValve::calculateValvePosition()
         /// - Greater potential drop across B, position less than 0.5
         position = MsMath::limitRange(0.0,
                                     0.5 * (1 - (pressureB - pressureA - mMinPressureDiff)
-                                             / (mOpenPressureA - mMinPressureDiff)),
+                                             / (mOpenPressureB - mMinPressureDiff)),
                                     0.5);
     }
 
-- 
2.43.0


From e9eecc84791194bad23e0e8f986864b1d809da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:23 +0000
Subject: [PATCH 46/85] fix: stop moving a tank constituent whose partial
 pressure rate edit has ended

---
 aspects/fluid/capacitor/GunnsFluidTank.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aspects/fluid/capacitor/GunnsFluidTank.cpp b/aspects/fluid/capacitor/GunnsFluidTank.cpp
index 900aa92..c485348 100644
--- a/aspects/fluid/capacitor/GunnsFluidTank.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidTank.cpp
@@ -340,6 +340,7 @@ void GunnsFluidTank::updateState(const double dt)
             const double rate = std::fabs(mEditPartialPressureRateValue[i]);
             if (rate < DBL_EPSILON) {
                 mEditPartialPressureRateFlag[i] = false;
+                mInternalFluid->setMass(i, 0.0);
                 GUNNS_WARNING("partial pressure rate edit canceled, zero rate not allowed.");
 
             } else {
@@ -372,6 +373,7 @@ void GunnsFluidTank::updateState(const double dt)
                     mInternalFluid->setMass(i, constituentMass);
                 } else {
                     mEditPartialPressureRateFlag[i] = false;
+                    mInternalFluid->setMass(i, 0.0);
                 }
             }
 
-- 
2.43.0


From e87a79ea665fa806f72802bc141fc274e6328f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 47/85] fix: restart the accumulator edit hold time for every
 edit

---
 aspects/fluid/capacitor/GunnsFluidAccum.cpp    | 1 +
 aspects/fluid/capacitor/GunnsFluidAccumGas.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/aspects/fluid/capacitor/GunnsFluidAccum.cpp b/aspects/fluid/capacitor/GunnsFluidAccum.cpp
index 106174d..d421548 100644
--- a/aspects/fluid/capacitor/GunnsFluidAccum.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidAccum.cpp
@@ -549,6 +549,7 @@ void GunnsFluidAccum::editLiqChamber(const double dt)
     bool forceComplete = forceLiqChamber(dt, mEditBellowsPosition, mEditBellowsRate, updateTemperatureNormally);
     if (forceComplete and processTimer(dt, mEditBellowsTimer, mEditHoldTime)) {
         mEditBellowsFlag = false;
+        mEditBellowsTimer = 0.0;
     }
 }
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
index c4ec03b..84fcbe1 100644
--- a/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidAccumGas.cpp
@@ -621,6 +621,7 @@ void GunnsFluidAccumGas::updatePressurizerFluid(const double dt)
             /// - Reset flag when complete.
             if (forceComplete and processTimer(dt, mEditPressureTimer, mEditHoldTime)) {
                 mEditPressureFlag = false;
+                mEditPressureTimer = 0.0;
                 /// - Record edit pressure value, which represents liquid pressure and includes spring pressure.
                 ///   If the edit stops naturally and simultaneous edits flag is true, then
                 ///   the pressure will be forced to this value until bellows edit is finished.
-- 
2.43.0


From f41f5b3f882a66352ec5174641396bdab4b49149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 48/85] fix: perform tank partial pressure edits that only
 change the mixture

---
 aspects/fluid/capacitor/GunnsFluidTank.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/capacitor/GunnsFluidTank.cpp b/aspects/fluid/capacitor/GunnsFluidTank.cpp
index c485348..009a2c5 100644
--- a/aspects/fluid/capacitor/GunnsFluidTank.cpp
+++ b/aspects/fluid/capacitor/GunnsFluidTank.cpp
@@ -495,8 +495,20 @@ void GunnsFluidTank::updateFluid(const double dt, const double)
         ///   isolated, or the edit is an extreme change in temperature or pressure.  The edit can
         ///   cause momentary mass flux in or out of the node as attached nodes come up to the edit
         ///   P - even non-cap nodes do this - so also check for net flux of the node approaching
-        ///   zero.
-        if (std::fabs(mEditTemperatureValue - mNodes[0]->getContent()->getTemperature()) < static_cast<double>(FLT_EPSILON) &&
+        ///   zero.  A partial pressure edit may leave total P & T as they are and only change the
+        ///   mixture, so it makes at least one pass unless the mixture is at the target too.
+        bool mixtureConverged = true;
+        if (mEditTemperaturePartialPressureFlag and not mDisablePressureCorrection) {
+            for (int i = 0; i < mNConstituents; ++i) {
+                if (std::fabs(mEditPartialPressureValue[i] -
+                        mNodes[0]->getContent()->getPartialPressure(mInternalFluid->getType(i)))
+                        > static_cast<double>(FLT_EPSILON)) {
+                    mixtureConverged = false;
+                }
+            }
+        }
+        if (mixtureConverged &&
+            std::fabs(mEditTemperatureValue - mNodes[0]->getContent()->getTemperature()) < static_cast<double>(FLT_EPSILON) &&
             std::fabs(mEditPressureValue    - mNodes[0]->getPotential()) < static_cast<double>(FLT_EPSILON) &&
             std::fabs(mNodes[0]->getNetFlux()) < mEditFluxTarget ) {
             mEditTemperaturePartialPressureFlag = false;
-- 
2.43.0


From d67738cb7e55c6b75a0aa6167cb04771bb950fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 49/85] fix: clear stale adsorber source and adsorb trace
 compounds in reverse flow

---
 aspects/fluid/source/GunnsFluidAdsorber.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorber.cpp b/aspects/fluid/source/GunnsFluidAdsorber.cpp
index 548f66c..1876ece 100644
--- a/aspects/fluid/source/GunnsFluidAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorber.cpp
@@ -376,6 +376,8 @@ void GunnsFluidAdsorber::updateFluid(const double dt, const double flowRate __at
     mSorbtionFluid->resetState();
     mSorbtionFlowRate = 0.0;
     mMass             = 0.0;
+    mSourceVector[0]  = 0.0;
+    mSourceVector[1]  = 0.0;
 
     /// - Skip sorbtion when the time step is negligible.
     if (dt > DBL_EPSILON) {
@@ -438,7 +440,7 @@ void GunnsFluidAdsorber::adsorb(const double dt, const double rate, const double
     /// - Adsorb trace compounds from the internal fluid.  Trace compounds adsorption efficiency is
     ///   reduced as the accumulated adsorbed mass approaches the maximum the adsorber can hold.
     if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-        mInternalFluid->setMole(mFlux);
+        mInternalFluid->setMole(std::fabs(mFlux));
         tc->updateMasses();
         for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
             double adsorption_efficiency = mTcEfficiency[i];
-- 
2.43.0


From f0d134c045406307eecde75802f82c69f664471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 50/85] fix: sorb trace compounds at their flow rates in the
 multi-adsorber

---
 .../source/GunnsFluidAdsorptionCompound.cpp   |  6 ++-
 .../fluid/source/GunnsFluidMultiAdsorber.cpp  | 46 +++++++++++++------
 .../fluid/source/GunnsFluidMultiAdsorber.hh   |  2 +
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
index 6eee639..bd30ce1 100644
--- a/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
+++ b/aspects/fluid/source/GunnsFluidAdsorptionCompound.cpp
@@ -280,8 +280,10 @@ void GunnsFluidAdsorptionCompound::sorb(const double dt, const double tAvg, cons
 
         /// - Adsorption rate is the efficiency times the mass flow thru.
         double mdotThru = 0.0;
-        if (mTraceCompound and std::fabs(mdot) > m100EpsilonLimit) {
-            mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+        if (mTraceCompound) {
+            if (std::fabs(mdot) > m100EpsilonLimit) {
+                mdotThru = mFluid->getTraceCompounds()->getMasses()[mIndex];
+            }
         } else {
             mdotThru = mFluid->getMassFraction(mIndex) * std::fabs(mdot);
         }
diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
index eb8e97c..43275da 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.cpp
@@ -281,6 +281,20 @@ void GunnsFluidMultiAdsorber::restartModel()
     mSorptionHeat        = 0.0;
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in]   dt         (s)     Time step.
+///
+/// @return      void
+///
+/// @details     Computes the flux as for the base class, and expresses the internal fluid as flow
+///              rates, so that its trace compound masses are the mass flow rates through the link.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsFluidMultiAdsorber::computeFlows(const double dt)
+{
+    GunnsFluidConductor::computeFlows(dt);
+    mInternalFluid->setMole(std::fabs(mFlux));
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in]   dt         (s)     Time step.
 /// @param[in]   flowRate   (kg/s)  Mass flow rate (not used).
@@ -317,6 +331,12 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
                                  + mInternalFluid->getTemperature());
         const double pAvg = 0.5 * (mPotentialVector[0] + mPotentialVector[1]);
 
+        /// - Express the through-flow trace compounds as mass flow rates.
+        GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
+        if (tc) {
+            tc->updateMasses();
+        }
+
         /// - Update & sum sorption rates of all compounds.
         double fluidAdsorptionRate = 0.0;
         for (unsigned int i=0; i<mNCompounds; ++i) {
@@ -332,6 +352,19 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
         ///   sorbant material, and desorptions are endothermic, pulling heat from the material.
         mWallHeatFlux += mSorptionHeat;
 
+        /// - Update trace compounds.
+        if (tc) {
+            for (unsigned int i=0; i<mNCompounds; ++i) {
+                if (mCompounds[i].isTraceCompound()) {
+                    const int    index          = mCompounds[i].getIndex();
+                    const double inletRate      = tc->getMasses()[index];
+                    const double adsorptionRate = mCompounds[i].mAdsorptionRate;
+                    tc->setMass(index, inletRate - adsorptionRate);
+                }
+            }
+            tc->updateMoleFractions();
+        }
+
         if (std::fabs(fluidAdsorptionRate) > m100EpsilonLimit) {
 
             /// - Reset the internal fluid state.
@@ -348,19 +381,6 @@ void GunnsFluidMultiAdsorber::updateFluid(const double dt, const double flowRate
             /// - Update output atmosphere mass, moles & fractions from constituent mass.
             mSorptionFluid->updateMass();
 
-            /// - Update trace compounds.
-            if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
-                for (unsigned int i=0; i<mNCompounds; ++i) {
-                    if (mCompounds[i].isTraceCompound()) {
-                        const int    index          = mCompounds[i].getIndex();
-                        const double inletRate      = tc->getMasses()[index];
-                        const double adsorptionRate = mCompounds[i].mAdsorptionRate;
-                        tc->setMass(index, inletRate - adsorptionRate);
-                    }
-                }
-                tc->updateMoleFractions();
-            }
-
             /// - Update output atmosphere temperature.
             mSorptionFluid->setTemperature(mInternalFluid->getTemperature());
 
diff --git a/aspects/fluid/source/GunnsFluidMultiAdsorber.hh b/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
index dc08a61..b29ad2b 100644
--- a/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
+++ b/aspects/fluid/source/GunnsFluidMultiAdsorber.hh
@@ -143,6 +143,8 @@ class GunnsFluidMultiAdsorber : public GunnsFluidConductor
                         std::vector<GunnsBasicLink*>&       networkLinks,
                         const int                           port0,
                         const int                           port1);
+        /// @brief  Computes the flux and internal fluid flow rates of this GunnsFluidMultiAdsorber.
+        virtual void computeFlows(const double dt);
         /// @brief  Updates the internal fluid of this GunnsFluidMultiAdsorber.
         virtual void updateFluid(const double dt, const double flowRate);
         /// @brief  Sets the thermal surface area of this GunnsFluidMultiAdsorber.
-- 
2.43.0


From 1ff46e4646433dd7bb954dae8c06666c94067359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 51/85] fix: send separated fluids to their own ports and keep
 trace compounds in the multi-separator

---
 .../fluid/source/GunnsFluidMultiSeparator.cpp    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..4a87862 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -568,8 +568,9 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
 
     /// - Build the link source vector.  Each separated fluid flow from last pass is added to its
     ///   respective exit port, and subtracted from the downstream port of the bulk through-flow.
-    mSourceVector[0] = 0.0;
-    mSourceVector[1] = 0.0;
+    for (int port=0; port<mNumPorts; ++port) {
+        mSourceVector[port] = 0.0;
+    }
     for (int i=0; i<mNumSepTypes; ++i) {
         if (mPotentialVector[0] >= mPotentialVector[1]) {
             mSourceVector[1] -= mSepBufferThru[i];
@@ -577,7 +578,7 @@ void GunnsFluidMultiSeparator::step(const double dt __attribute__((unused)))
             mSourceVector[0] -= mSepBufferThru[i];
         }
         mSepBufferExit[i] = mSepBufferThru[i];
-        mSourceVector[mSepPort[i]] = mSepBufferExit[i];
+        mSourceVector[mSepPort[i]] += mSepBufferExit[i];
     }
 }
 
@@ -683,11 +684,11 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
     /// - The separation fluids added to the exit nodes use the buffered separation flows from last
     ///   pass, which were reflected in the link source vector this pass.
-    for (int port=2, fluid=0; port<mNumPorts; ++port, ++fluid) {
+    for (int fluid=0; fluid<mNumSepTypes; ++fluid) {
         mSepFluid[fluid].setTemperature(temperature);
         const double mdot = mSepBufferExit[fluid] * mSepFluid[fluid].getMWeight();
         if (mdot > DBL_EPSILON) {
-            mNodes[port]->collectInflux(mdot, &mSepFluid[fluid]);
+            mNodes[mSepPort[fluid]]->collectInflux(mdot, &mSepFluid[fluid]);
         }
     }
 
@@ -698,7 +699,7 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Move trace compounds from the bulk fluid to their exit nodes.
         GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds();
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
             const GunnsFluidTraceCompoundsConfigData* tcConfig = tc->getConfig();
             for (int i=0; i<tcConfig->mNTypes; i++) {
                 mWorkTcMassFlowRates[i] = flux * tc->getMoleFractions()[i] * tcConfig->mCompounds[i]->mMWeight;
@@ -738,7 +739,8 @@ void GunnsFluidMultiSeparator::transportFlows(const double dt __attribute__((unu
 
         /// - Update trace compound mole fractions relative to the moles remaining in the
         ///   internal fluid, before given to the downstream node.
-        if (tc and mNumTcTypes > 0) {
+        if (tc) {
+            mInternalFluid->setMole(exitFlux);
             tc->updateMoleFractions();
         }
         mNodes[downstreamPort]->collectInflux(exitFlux * mInternalFluid->getMWeight(), mInternalFluid);
-- 
2.43.0


From 6893365a3ef50b4554eca56b35cd18027d91c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 52/85] fix: add reaction heat to reverse flow in the reactor

---
 aspects/fluid/source/GunnsFluidReactor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidReactor.cpp b/aspects/fluid/source/GunnsFluidReactor.cpp
index 37338fd..812f59f 100644
--- a/aspects/fluid/source/GunnsFluidReactor.cpp
+++ b/aspects/fluid/source/GunnsFluidReactor.cpp
@@ -710,8 +710,9 @@ void GunnsFluidReactor::updateTemperature(const double dt __attribute__((unused)
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidReactor::addRxnHeat(const double dt)
 {
-    const double newHeat = mFlowRate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
-    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / mFlowRate ));
+    const double rate    = std::fabs(mFlowRate);
+    const double newHeat = rate * mInternalFluid->getSpecificEnthalpy() + mProducedHeat / dt;
+    mInternalFluid->setTemperature(mInternalFluid->computeTemperature( newHeat / rate ));
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 217ba019caef250b1398e731b29bb0b528e33b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 53/85] fix: carry trace compounds in net negative node inflows

---
 aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
index a39e784..63bc731 100644
--- a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
+++ b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
@@ -646,7 +646,7 @@ void GunnsFluidTraceCompounds::updateMasses()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidTraceCompounds::updateMoleFractions()
 {
-    if (mFluidMoles > 0.0) {
+    if (mFluidMoles != 0.0) {
         for (int i = 0;  i < mConfig->mNTypes; ++i) {
             mMoleFraction[i] = mMass[i] / mFluidMoles / mConfig->mCompounds[i]->mMWeight;
         }
@@ -655,7 +655,7 @@ void GunnsFluidTraceCompounds::updateMoleFractions()
     /// - To avoid math underflows, zero mass and mole fraction if the mole fraction drops to an
     ///   insignificant level.
     for (int i = 0;  i < mConfig->mNTypes; ++i) {
-        if (mMoleFraction[i] < DBL_EPSILON) {
+        if ((mFluidMoles < 0.0 ? std::fabs(mMoleFraction[i]) : mMoleFraction[i]) < DBL_EPSILON) {
             mMoleFraction[i] = 0.0;
             mMass[i]         = 0.0;
         }
-- 
2.43.0


From 2c1c289e2e83d3cde4850a6c784f30d9e6554b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:46 +0000
Subject: [PATCH 54/85] fix: heat exchanger temperature change in reverse flow
 is relative to the inlet

---
 aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp b/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp
index 50f26ed..723ca72 100644
--- a/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp
+++ b/aspects/fluid/conductor/GunnsFluidHeatExchanger.cpp
@@ -298,8 +298,10 @@ void GunnsFluidHeatExchanger::updateFluid(const double dt, const double flowRate
     /// - For each segment compute the energy gain loss and update the fluid temperature.
     updateSegments(dt, flowRate);
 
-    /// - Compute the total temperature change across the heat exchanger
-    mDeltaTemperature = mInternalFluid->getTemperature() - mNodes[0]->getOutflow()->getTemperature();
+    /// - Compute the total temperature change across the heat exchanger, from the node that the flow
+    ///   comes from.
+    const int inletPort = (flowRate < 0.0) ? 1 : 0;
+    mDeltaTemperature = mInternalFluid->getTemperature() - mNodes[inletPort]->getOutflow()->getTemperature();
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 1afc9ce546329273ecd073e024f19731a729b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 55/85] fix: condensing heat exchanger reports no heat, not
 NaN, when it has no heat transfer coefficient

---
 aspects/fluid/conductor/GunnsFluidCondensingHx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
index 03c2893..dc9be2c 100644
--- a/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
+++ b/aspects/fluid/conductor/GunnsFluidCondensingHx.cpp
@@ -393,7 +393,7 @@ void GunnsFluidCondensingHx::updateHeatExchanger(const double dt __attribute__((
             double limitHtc  = std::min(mSegmentHtc, 100.0 * mDot * cpAvg);
             double htcMdotCp = limitHtc / (mDot * cpAvg);
             double tOut      = mSegmentTemperature[i] + std::exp(-htcMdotCp) * (tIn - mSegmentTemperature[i]);
-            double qSensible = limitHtc * (tIn - tOut) / htcMdotCp;
+            double qSensible = mDot * cpAvg * (tIn - tOut);
             mSegmentHeat[i]  = 0.0;
 
             /// - If there is enough heat to cause condensation, proceed with condensation
-- 
2.43.0


From 0ce4a259f1de5405f63fc522c53c17260af920cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 56/85] fix: GunnsGasFanCurve tries Brent's method when
 Laguerre's fails to converge

improveRoot documented Brent's method as the fallback for Laguerre's, but an
exception from Laguerre's skipped it, so valid curves were rejected and the
fan lost its impeller-system intersection.
---
 aspects/fluid/potential/GunnsGasFanCurve.cpp | 42 ++++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/aspects/fluid/potential/GunnsGasFanCurve.cpp b/aspects/fluid/potential/GunnsGasFanCurve.cpp
index 30583a3..9af431c 100644
--- a/aspects/fluid/potential/GunnsGasFanCurve.cpp
+++ b/aspects/fluid/potential/GunnsGasFanCurve.cpp
@@ -56,36 +56,34 @@ void GunnsGasFanCurve::improveRoot(double& realRoot, double* realCoeffs, double
     mIterBrent    = 0;
     mIterLaguerre = 0;
 
+    /// - First try Laguerre's method to improve the root.  Load the given coefficients into the
+    ///   scalar components of a complex array for Laguerre's method.
+    std::complex<double> root = realRoot;
+    std::complex<double> coeffs[6];
+    for (int order=0; order<6; ++order) {
+        coeffs[order] = realCoeffs[order];
+    }
     try {
-        /// - First try Laguerre's method to improve the root.  Load the given coefficients into the
-        ///   scalar components of a complex array for Laguerre's method.
-        std::complex<double> root = realRoot;
-        std::complex<double> coeffs[6];
-        for (int order=0; order<6; ++order) {
-            coeffs[order] = realCoeffs[order];
-        }
         mIterLaguerre = LaguerreMethod::solve(root, coeffs, 6);
-
         if (MsMath::isInRange(0.0, root.real(), maxQ) and std::fabs(root.imag()) < DBL_EPSILON) {
             realRoot = root.real();
-
-        } else try {
-            /// - If Laguerre failed to converge on a valid root, try Brent's method.  Store the
-            ///   given coefficients into the curve object.
-            setCoeffs(realCoeffs);
-            mIterBrent = solve(realRoot, 0.0, (maxQ + static_cast<double>(FLT_EPSILON)), static_cast<double>(FLT_EPSILON));
-
-        } catch (...) {
-            /// - Throw an exception if no suitable root was found.  For a properly configured fan
-            ///   curve, this will never happen.
-            throw TsNumericalException("Re-throwing", "GunnsGasFanCurve::improveRoot",
-                    "BrentMethod threw exception.");
+            return;
         }
+    } catch (...) {
+        /// - Laguerre could not find any roots at all, so fall through to Brent's method.
+    }
+
+    try {
+        /// - If Laguerre failed to converge on a valid root, try Brent's method.  Store the
+        ///   given coefficients into the curve object.
+        setCoeffs(realCoeffs);
+        mIterBrent = solve(realRoot, 0.0, (maxQ + static_cast<double>(FLT_EPSILON)), static_cast<double>(FLT_EPSILON));
 
     } catch (...) {
-        /// - Throw an exception if Laguerre could not find any roots at all.
+        /// - Throw an exception if no suitable root was found.  For a properly configured fan
+        ///   curve, this will never happen.
         throw TsNumericalException("Re-throwing", "GunnsGasFanCurve::improveRoot",
-                "LaguerreMethod threw exception.");
+                "BrentMethod threw exception.");
     }
 }
 
-- 
2.43.0


From d533976a582d5b21f83b6a722e67d30327f19bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 57/85] fix: displacement pump converts its demand with the
 molecular weight of the fluid being pumped

The internal fluid was left from the previous pass, so a reversal between nodes
of different composition moved the wrong mass for a step.
---
 aspects/fluid/source/GunnsGasDisplacementPump.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aspects/fluid/source/GunnsGasDisplacementPump.cpp b/aspects/fluid/source/GunnsGasDisplacementPump.cpp
index 389a710..2753b4d 100644
--- a/aspects/fluid/source/GunnsGasDisplacementPump.cpp
+++ b/aspects/fluid/source/GunnsGasDisplacementPump.cpp
@@ -319,6 +319,10 @@ void GunnsGasDisplacementPump::updateState(const double dt)
     } else {
         mFlowDemand = mVolFlowRate * mNodes[1]->getContent()->getDensity();
     }
+
+    /// - The internal fluid supplies the molecular weight that converts the demand to molar flux, so
+    ///   it must match the fluid that is about to be pumped rather than what was pumped last time.
+    mInternalFluid->setState(mNodes[determineSourcePort(mFlowDemand, 0, 1)]->getOutflow());
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 44fb6108aae6dc2fa354d510b58669ad929a3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 58/85] fix: fan source pressure no longer locks at zero after
 windmilling

The floor on the previous pressure was an absolute DBL_EPSILON, below the
rounding of a curve of more than about 1 kPa, so a fan whose pressure reached
zero could stay there with forward flow. The floor is now relative to the
dead-head pressure.
---
 aspects/fluid/potential/GunnsGasFan.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/potential/GunnsGasFan.cpp b/aspects/fluid/potential/GunnsGasFan.cpp
index d8575ce..abb4666 100644
--- a/aspects/fluid/potential/GunnsGasFan.cpp
+++ b/aspects/fluid/potential/GunnsGasFan.cpp
@@ -582,7 +582,8 @@ void GunnsGasFan::computeSourcePressure()
         /// - Min/max limits are set to avoid locking up the pressure, and the result is
         ///   filtered for further stability as needed.
         const double gSys = std::max(mReferenceQ * speedFactor * 0.0001, mVolFlowRate)
-                          / std::sqrt(MsMath::limitRange(DBL_EPSILON, mSourcePressure, mAffinityCoeffs[0]));
+                          / std::sqrt(MsMath::limitRange(static_cast<double>(FLT_EPSILON) * mAffinityCoeffs[0],
+                                                           mSourcePressure, mAffinityCoeffs[0]));
 
         mSystemConstant = mFilterGain * gSys + (1.0 - mFilterGain) * mSystemConstant;
 
-- 
2.43.0


From c3e1bd37fbb421d6eac011fefec8801e58f2101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 59/85] fix: distributed fluid interface in supply role used
 its own outgoing energy for the incoming flow

---
 core/GunnsFluidDistributedIf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/GunnsFluidDistributedIf.cpp b/core/GunnsFluidDistributedIf.cpp
index 0a9392b..23604b3 100755
--- a/core/GunnsFluidDistributedIf.cpp
+++ b/core/GunnsFluidDistributedIf.cpp
@@ -456,12 +456,12 @@ double GunnsFluidDistributedIf::inputFluid(const double pressure, PolyFluid* flu
     fluid->setPressure(pressure);
 
     if (mUseEnthalpy) {
-        fluid->setTemperature(fluid->computeTemperature(mWorkFluidState.mEnergy));
+        fluid->setTemperature(fluid->computeTemperature(workingState->mEnergy));
     } else {
-        fluid->setTemperature(mWorkFluidState.mEnergy);
+        fluid->setTemperature(workingState->mEnergy);
     }
 
-    if (mWorkFluidState.mTcMoleFractions) {
+    if (workingState->mTcMoleFractions) {
         GunnsFluidTraceCompounds* tc = fluid->getTraceCompounds();
         if (tc) {
             /// - As above, adjust the TC mole fractions to be relative to the internal GUNNS bulk
-- 
2.43.0


From d3955abe2c7c540fd6949bb6c50d47e0cfa28e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 60/85] fix: equivalent conductor delivered its initial mixture
 instead of the source node's

---
 aspects/fluid/conductor/GunnsFluidEqConductor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
index 7613c23..813913d 100755
--- a/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidEqConductor.cpp
@@ -394,8 +394,12 @@ void GunnsFluidEqConductor::transportFlows(const double dt __attribute__((unused
     /// - Calculate hydraulic power rise from supply to return ports.
     mPower = -UnitConversion::PA_PER_KPA * mVolFlowRate * getDeltaPotential();
 
-    /// - Update the internal fluid temperature with the external network temperature at the port
-    ///   from which flow is returning.
+    /// - The external network doesn't change the fluid mixture, so the internal fluid has the mixture
+    ///   of the source node.  Update the internal fluid temperature with the external network
+    ///   temperature at the port from which flow is returning.
+    if (std::fabs(mFlowRate) > DBL_EPSILON) {
+        mInternalFluid->setState(mNodes[sourcePort]->getOutflow());
+    }
     if (mFlowRate > DBL_EPSILON) {
         mInternalFluid->setTemperature(mPort1DemandTemperature);
     } else if (mFlowRate < -DBL_EPSILON) {
-- 
2.43.0


From 83b5d4a5fd5322833ce1f39f2bcbbc233aa8711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 61/85] fix: NaN in received fluid interface data was accepted
 as valid

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index bf1fad6..59ea381 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -293,16 +293,18 @@ Distributed2WayBusFluidInterfaceData& Distributed2WayBusFluidInterfaceData::oper
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 bool Distributed2WayBusFluidInterfaceData::hasValidData() const
 {
-    if (mFrameCount < 1 or mEnergy <= 0.0 or mCapacitance < 0.0 or (mSource < 0.0 and not mDemandMode)) {
+    /// - The comparisons are written to also reject NaN values.
+    if (mFrameCount < 1 or not (mEnergy > 0.0) or not (mCapacitance >= 0.0)
+            or not (mSource >= 0.0 or (mDemandMode and mSource < 0.0))) {
         return false;
     }
     for (unsigned int i=0; i<mNumFluid; ++i) {
-        if (mMoleFractions[i] < 0.0) {
+        if (not (mMoleFractions[i] >= 0.0)) {
             return false;
         }
     }
     for (unsigned int i=0; i<mNumTc; ++i) {
-        if (mTcMoleFractions[i] < 0.0) {
+        if (not (mTcMoleFractions[i] >= 0.0)) {
             return false;
         }
     }
-- 
2.43.0


From e97731e5b0b85d4463ab46d1380d1b00781647d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:04 +0000
Subject: [PATCH 62/85] fix: both sides of a fluid interface stayed in demand
 after a missed role swap

---
 ms-utils/interop/Distributed2WayBusFluid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ms-utils/interop/Distributed2WayBusFluid.cpp b/ms-utils/interop/Distributed2WayBusFluid.cpp
index 59ea381..c3acfa4 100755
--- a/ms-utils/interop/Distributed2WayBusFluid.cpp
+++ b/ms-utils/interop/Distributed2WayBusFluid.cpp
@@ -529,8 +529,11 @@ void Distributed2WayBusFluid::flipModesOnInput()
         flipToSupplyMode();
     } else if (mInData.hasValidData()) {
         /// - If in demand mode and the incoming data is also demand, then the other side has
-        ///   initialized the demand/supply swap, so we flip to supply.
-        if (mOutData.mDemandMode and mInData.mDemandMode and not mInDataLastDemandMode) {
+        ///   initialized the demand/supply swap, so we flip to supply.  If the other side has seen
+        ///   us in demand and is still in demand, then its swap was missed (bad data or a forced
+        ///   role), and we flip to supply as well.
+        if (mOutData.mDemandMode and mInData.mDemandMode and
+                (not mInDataLastDemandMode or mFramesSinceFlip > mLoopLatency)) {
             flipToSupplyMode();
         } else if (not mInData.mDemandMode and not mOutData.mDemandMode) {
             if ( (mOutData.mCapacitance < mInData.mCapacitance) or
-- 
2.43.0


From 7f91090a045e333dbcd5b57b7585e5a50e5a4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:39 +0000
Subject: [PATCH 63/85] fix: both sides of an electrical interface stayed in
 supply after a forced role was released

---
 ms-utils/interop/Distributed2WayBusElect.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ms-utils/interop/Distributed2WayBusElect.cpp b/ms-utils/interop/Distributed2WayBusElect.cpp
index a2a607a..5d7d82b 100755
--- a/ms-utils/interop/Distributed2WayBusElect.cpp
+++ b/ms-utils/interop/Distributed2WayBusElect.cpp
@@ -140,6 +140,8 @@ void Distributed2WayBusElect::update(const float localVoltage, const float local
             ///   - If we are in Supply and our highest available local supply voltage < remote's
             ///     supply voltage, then we switch to Demand.  This keeps the Supply role on the
             ///     side with the higher available local supply voltage.
+            ///   - If we are in Supply, the remote side has seen this and is still in Supply, then the
+            ///     side that is not the primary switches to Demand.  This can follow a forced role.
             /// - Wait and only do mode changes when we have valid data from other side.
             if (mInData.mFrameLoopback > 0) {
                 if (mOutData.mDemandMode) {
@@ -156,6 +158,11 @@ void Distributed2WayBusElect::update(const float localVoltage, const float local
                         std::ostringstream msg;
                         msg << "flipping to Demand role with available V: " << availV << " < remote V: " << mInData.mSupplyVoltage << ".";
                         pushNotification(Distributed2WayBusNotification::INFO, msg.str());
+                    } else if (not mInData.mDemandMode and not mIsPairMaster and (mFramesSinceFlip > mLoopLatency)) {
+                        mOutData.mDemandMode = true;
+                        mFramesSinceFlip     = 0;
+                        pushNotification(Distributed2WayBusNotification::INFO,
+                                "flipping to Demand role because both sides are in the Supply role.");
                     }
                 }
             }
-- 
2.43.0


From cd402d86c384637682d2de5fee514ca18b0638be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 64/85] fix: trace compounds kept when a node's inflow mixture
 has a net negative trace flow

---
 aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
index 63bc731..ca64627 100644
--- a/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
+++ b/aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp
@@ -655,7 +655,7 @@ void GunnsFluidTraceCompounds::updateMoleFractions()
     /// - To avoid math underflows, zero mass and mole fraction if the mole fraction drops to an
     ///   insignificant level.
     for (int i = 0;  i < mConfig->mNTypes; ++i) {
-        if ((mFluidMoles < 0.0 ? std::fabs(mMoleFraction[i]) : mMoleFraction[i]) < DBL_EPSILON) {
+        if (std::fabs(mMoleFraction[i]) < DBL_EPSILON) {
             mMoleFraction[i] = 0.0;
             mMass[i]         = 0.0;
         }
-- 
2.43.0


From 7cc99f4e684f12a62eec0eeb4797e6f5516971d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:24 +0000
Subject: [PATCH 65/85] fix: super networks lost their joints at restart and
 when absorbed; shadow link converted held inputs again every pass

---
 core/GunnsFluidShadow.cpp              | 18 ++++++++++--------
 core/network/GunnsSuperNetworkBase.cpp | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/core/GunnsFluidShadow.cpp b/core/GunnsFluidShadow.cpp
index 435a465..3f6d2d2 100755
--- a/core/GunnsFluidShadow.cpp
+++ b/core/GunnsFluidShadow.cpp
@@ -263,18 +263,20 @@ void GunnsFluidShadow::processInputs()
     if (mFirstPassFlag) {
         mShadowIsActive = (mShadowActiveControl == mControlTarget);
 
-        /// - Convert the incoming mixture information into partial masses.
+        /// - Convert the incoming mixture information into partial masses.  This converts a copy, so
+        ///   that inputs which aren't refreshed before the next pass aren't converted again.
+        double mixture[FluidProperties::NO_FLUID];
+        for (int i=0; i<mExternalConfig->mNTypes; ++i) {
+            mixture[i] = mInputMixture[i];
+        }
         switch (mInputMixtureType) {
             case GunnsFluidUtils::MOLE_FRACTION :
-                GunnsFluidUtils::convertMoleFractionToMassFraction(mInputMixture, mInputMixture,
-                                                                   mExternalConfig);
+                GunnsFluidUtils::convertMoleFractionToMassFraction(mixture, mixture, mExternalConfig);
                 break;
 
             case GunnsFluidUtils::PARTIAL_PRESSURE :
-                GunnsFluidUtils::convertPartialPressureToMoleFraction(mInputMixture, mInputMixture,
-                                                                      mExternalConfig);
-                GunnsFluidUtils::convertMoleFractionToMassFraction(mInputMixture, mInputMixture,
-                                                                   mExternalConfig);
+                GunnsFluidUtils::convertPartialPressureToMoleFraction(mixture, mixture, mExternalConfig);
+                GunnsFluidUtils::convertMoleFractionToMassFraction(mixture, mixture, mExternalConfig);
                 break;
 
             default :
@@ -286,7 +288,7 @@ void GunnsFluidShadow::processInputs()
 
             try {
                 GunnsFluidUtils::transformState(mNodes[1]->getContent(), mInputPressure,
-                        mInputTemperature, mInputMixture, mTransformMap);
+                        mInputTemperature, mixture, mTransformMap);
             } catch (TsOutOfBoundsException &e) {
                 GUNNS_WARNING("caught exception from PolyFluid class, most likely due to bad " <<
                               "external fluid data.");
diff --git a/core/network/GunnsSuperNetworkBase.cpp b/core/network/GunnsSuperNetworkBase.cpp
index 377ad54..0affb4c 100755
--- a/core/network/GunnsSuperNetworkBase.cpp
+++ b/core/network/GunnsSuperNetworkBase.cpp
@@ -177,6 +177,19 @@ void GunnsSuperNetworkBase::addSubNetwork(GunnsSuperNetworkBase* network)
             otherSubs[i]->setNodeOffset(0, 0);
             addSubNetwork(otherSubs[i]);
         }
+
+        /// - Take over the joints between those sub-networks as well.
+        for (unsigned int i=0; i<network->mJointNetworks.size(); ++i) {
+            GunnsNetworkBase* joint = network->mJointNetworks[i];
+            joint->setJointIndex(mJoints.size() + joint->getJointIndex());
+        }
+        mJointNetworks.insert(mJointNetworks.end(), network->mJointNetworks.begin(), network->mJointNetworks.end());
+        mJoints.insert(mJoints.end(), network->mJoints.begin(), network->mJoints.end());
+        numJoints = mJoints.size();
+        network->mJointNetworks.clear();
+        network->mJoints.clear();
+        network->mJointsIndeces.clear();
+        network->numJoints = 0;
         network->empty();
 
     } catch (TsInitializationException& e) {
@@ -431,6 +444,12 @@ void GunnsSuperNetworkBase::restart()
     try {
         netSolver.restart();
 
+        /// - The links' restarts return their ports to the nodes they were initialized to, so make
+        ///   the joints again.
+        for (unsigned int i=0; i<numJoints; ++i) {
+            mJoints[i]->join(mJoints[i]->network->getNodeOffset());
+        }
+
     } catch (const std::exception& e) {
         /// - Send an H&S error message and return on unexpected exception derived from std::exception.
         TsHsMsg msg(TS_HS_ERROR, "GUNNS");
-- 
2.43.0


From e277e8fdc60bd23f81a843c52ff3b1935716f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 66/85] fix: TinyXML read past the end of text cut off inside a
 multi-byte character

---
 ms-utils/parsing/tinyxml/tinyxml.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ms-utils/parsing/tinyxml/tinyxml.hh b/ms-utils/parsing/tinyxml/tinyxml.hh
index 59463be..2c4775b 100644
--- a/ms-utils/parsing/tinyxml/tinyxml.hh
+++ b/ms-utils/parsing/tinyxml/tinyxml.hh
@@ -368,10 +368,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i = 0;
+			for( ; i<*length && p[i]; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// a multi-byte character can be cut off by the end of the text
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From 5750a23a251486e90735b7895b7d6c9768a21f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 67/85] fix: thermal file parser kept stale data on re-read,
 misassigned view scalars and crashed on empty tags; capacitance groups
 rescaled twice at restart

---
 aspects/thermal/network/ThermFileParser.cpp | 22 +++++++-----
 aspects/thermal/network/ThermalNetwork.cpp  | 38 ++++++++++++---------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/aspects/thermal/network/ThermFileParser.cpp b/aspects/thermal/network/ThermFileParser.cpp
index 23396a0..1fa3778 100644
--- a/aspects/thermal/network/ThermFileParser.cpp
+++ b/aspects/thermal/network/ThermFileParser.cpp
@@ -598,6 +598,7 @@ void ThermFileParser::clearNode()
     /// - Clear any Node data.
     vNodeNames.clear();
     mNodeMap.clear();
+    vCapEditGroupList.clear();
     /// - Clear the number of nodes.
     numNodes = 0;
 }
@@ -612,6 +613,7 @@ void ThermFileParser::clearCap()
     vCapPorts.clear();
     vCapTemperatures.clear();
     vCapCapacitances.clear();
+    vCapEditGroupIdentifiers.clear();
     /// - Clear the number of capacitance links.
     numLinksCap = 0;
 }
@@ -667,6 +669,7 @@ void ThermFileParser::clearPan()
 {
     /// - Clear Thermal Panel data vectors.
     vPanPorts.clear();
+    vPanFracs.clear();
     vPanNames.clear();
     vPanAreas.clear();
     vPanAbsorptivities.clear();
@@ -696,6 +699,8 @@ void ThermFileParser::clearSrc()
     /// - Clear Source Link data vectors.
     vSrcNames.clear();
     vSrcPorts.clear();
+    vSrcFracs.clear();
+    vSrcScalars.clear();
     vSrcInits.clear();
     /// - Clear the number of sources.
     numLinksSrc = 0;
@@ -1115,10 +1120,6 @@ void ThermFileParser::registerInputRad(TiXmlElement* radiation)
     /// Create a baseline linkName.
     std::string linkName = "(error setting name)";
 
-    if (numInputEntriesRad > numLinksRad) {
-        TS_PTCS_WARNING("More radiation input data than radiation links. Did not register rad link input data: "<< linkName);
-    }
-
     try
     {
         /// - Get the nodes at each port.
@@ -1144,8 +1145,13 @@ void ThermFileParser::registerInputRad(TiXmlElement* radiation)
         /// - Get input data.
         const double viewScalar = ParseTool::convertToDouble( getText(radiation, "viewScalar"), TS_HS_PTCS,
                                                         "Thermal rad link: " + linkName + ".");
-        /// - If everything above was successful,
-        vRadViewScalars.push_back(viewScalar);
+        /// - Find the radiation link that this entry is for, by its name.
+        std::vector<std::string>::iterator iter = std::find(vRadNames.begin(), vRadNames.end(), linkName);
+        TS_PTCS_IF_ERREX(vRadNames.end() == iter, TsParseException, "unregistered radiation link", linkName);
+
+        /// - If everything above was successful.  Links without an entry keep a view scalar of one.
+        vRadViewScalars.resize(numLinksRad, 1.0);
+        vRadViewScalars.at(std::distance(vRadNames.begin(), iter)) = viewScalar;
 
         /// - Increment the count.
         numInputEntriesRad++;
@@ -1212,7 +1218,7 @@ const char* ThermFileParser::getText(TiXmlElement* parent, const char* tag,
 
     /// - GetText() returns zero if failed. Throw exception.
     TS_PTCS_IF_ERREX(0 == text && true == raiseErrorIfNotFound, TsParseException,
-            "No text given in XML tag,", tag);
+            "No text given in XML tag,", child->ValueStr());
 
     return text;
 }
@@ -1308,7 +1314,7 @@ void ThermFileParser::buildMultiPortVectors(
     while (0 != node)
     {
         /// - Get the node name and validate that it has been registered.
-        const std::string nodeName = node->GetText();
+        const std::string nodeName = getText(node, 0);
 
         /// - Get the port number from the nodeName, and push onto the portsVector.
         vectorInt.push_back( validateNode(nodeName) );
diff --git a/aspects/thermal/network/ThermalNetwork.cpp b/aspects/thermal/network/ThermalNetwork.cpp
index a76a754..ea72cd3 100644
--- a/aspects/thermal/network/ThermalNetwork.cpp
+++ b/aspects/thermal/network/ThermalNetwork.cpp
@@ -362,6 +362,21 @@ void ThermalNetwork::allocate()
     numLinksPot  = parser.numLinksPot;
     numLinksSrc  = parser.numLinksSrc;
 
+    /// - Allocate & initialize capacitance edit group controls.
+    ////////////////////////////////////////////////////////////////////////////////////////////////
+    if (0 < numCapEditGroups)
+    {
+        TS_NEW_PRIM_ARRAY_EXT(mCapEditScaleFactor, numCapEditGroups, double,
+                              std::string(mName) + ".mCapEditScaleFactor");
+        TS_NEW_PRIM_ARRAY_EXT(mCapEditScalePrev,   numCapEditGroups, double,
+                              std::string(mName) + ".mCapEditScalePrev");
+        for(int i = 0; i < numCapEditGroups; ++i)
+        {
+            mCapEditScaleFactor[i] = 1.0;
+            mCapEditScalePrev[i]   = 1.0;
+        }
+    }
+
     /// - Capacitance Links
     ////////////////////////////////////////////////////////////////////////////////////////////////
     if (numLinksCap > 0)
@@ -386,19 +401,6 @@ void ThermalNetwork::allocate()
         TS_PTCS_IF_ERREX(0 == mCapacitanceInputData, TsInitializationException,
                 "allocation error,", "Null pointer to CapacitanceInputData.");
 
-        /// - Allocate & initialize capacitance edit group controls.
-        if (0 < numCapEditGroups)
-        {
-            TS_NEW_PRIM_ARRAY_EXT(mCapEditScaleFactor, numCapEditGroups, double,
-                                  std::string(mName) + ".mCapEditScaleFactor");
-            TS_NEW_PRIM_ARRAY_EXT(mCapEditScalePrev,   numCapEditGroups, double,
-                                  std::string(mName) + ".mCapEditScalePrev");
-            for(int i = 0; i < numCapEditGroups; ++i)
-            {
-                mCapEditScaleFactor[i] = 1.0;
-                mCapEditScalePrev[i]   = 1.0;
-            }
-        }
         /// - Initialize each Config and Input Data pointer to null.
         for(int i = 0; i < numLinksCap; ++i)
         {
@@ -1074,9 +1076,10 @@ void ThermalNetwork::preloadCapacitanceGroups()
     for (int group = 0; group < numCapEditGroups; ++group)
     {
         /// - Protect for divide by zeros below.
-        mCapEditScaleFactor[group] = std::max(mCapEditScaleFactor[group], DBL_EPSILON);
-        /// - Reverse the current scale
-        const double ratio = 1.0 / mCapEditScaleFactor[group];
+        mCapEditScalePrev[group] = std::max(mCapEditScalePrev[group], DBL_EPSILON);
+        /// - Reverse the scale that is currently applied, which isn't the commanded scale if that has
+        ///   changed since the last update.
+        const double ratio = 1.0 / mCapEditScalePrev[group];
         /// - Apply ratio
         applyCapacitanceGroups(group, ratio);
     }
@@ -1091,8 +1094,9 @@ void ThermalNetwork::restartCapacitanceGroups()
     {
         /// - Scale factor cannot be zero.
         mCapEditScaleFactor[group] = std::max(mCapEditScaleFactor[group], DBL_EPSILON);
-        /// - Apply capacitance scale
+        /// - Apply capacitance scale, and remember that it has been so the next update doesn't repeat it.
         applyCapacitanceGroups(group, mCapEditScaleFactor[group]);
+        mCapEditScalePrev[group] = mCapEditScaleFactor[group];
     }
 }
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d6dcf1ef463c61cbcbdc4570c27dc111f398291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 68/85] fix: netexport gave links too many ports, or crashed on
 a port number the link doesn't have

---
 draw/netexport.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index daa6e0f..2f59aa9 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -1293,7 +1293,6 @@ for link in links:
         cell_attr = port.find('./mxCell').attrib
         if (link_id == cell_attr['source']) or (link_id == cell_attr['target']):
             link_ports.append(port)
-    num_found_ports = len(link_ports)
 
     # Check that all required ports are present
     for req_port in req_ports:
@@ -1306,11 +1305,17 @@ for link in links:
         if not port_found:
             sys.exit(console.abort(getLinkName(link) + ' link is missing required Port ' + req_port + '.'))
 
-    # Sizing the port_map list by the larger of the number of fixed ports or found ports
-    # supports variable port links.
+    # Sizing the port_map list by the number of fixed ports, or by the largest found port
+    # number supports variable port links.
     # Default all ports to -1 (Ground), then found ports will override this for their
     # slot.  This leaves optional ports with no connection on Ground.
-    port_map = [-1] * max(num_ports, num_found_ports)
+    num_map_ports = num_ports
+    for link_port in link_ports:
+        port_number = int(link_port.attrib['label'])
+        if num_ports > 0 and port_number >= num_ports:
+            sys.exit(console.abort(getLinkName(link) + ' link has no Port ' + str(port_number) + '.'))
+        num_map_ports = max(num_map_ports, port_number + 1)
+    port_map = [-1] * num_map_ports
     for link_port in link_ports:
         port_number = int(link_port.attrib['label'])
         cell_attr   = link_port.find('./mxCell').attrib
-- 
2.43.0


From f21c629d2547497a0afd4717392cf8dfb3cbd639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 69/85] fix: netexport didn't clean the names of shapes that it
 also updated

---
 draw/netexport.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index 2f59aa9..76c616a 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -1136,49 +1136,58 @@ allShapeMasters = shapeLibs.shapeTree.findall('./object')
 
 for link in links:
     master = shapeLibs.getLinkShapeMaster(link, allShapeMasters)
-    if updateLinkShapeData(link, master) or cleanLabel(link):
+    cleaned = cleanLabel(link)
+    if updateLinkShapeData(link, master) or cleaned:
         contentsUpdated = True
 
 for spotter in spotters:
     master = shapeLibs.getSpotterShapeMaster(spotter, allShapeMasters)
-    if updateSpotterShapeData(spotter, master) or cleanLabel(spotter):
+    cleaned = cleanLabel(spotter)
+    if updateSpotterShapeData(spotter, master) or cleaned:
         contentsUpdated = True
 
 master = shapeLibs.getNetworkShapeMaster(allShapeMasters)
 for netContainer in netConfig:
-    if updateShapeData(netContainer, master) or cleanLabel(netContainer):
+    cleaned = cleanLabel(netContainer)
+    if updateShapeData(netContainer, master) or cleaned:
         contentsUpdated = True
 
 for interface in subNetIfs:
     master = shapeLibs.getShapeMaster(allShapeMasters,shapeLibs.getShapeType(interface),shapeLibs.getShapeSubtype(interface))
-    if updateShapeData(interface, master) or cleanLabel(interface):
+    cleaned = cleanLabel(interface)
+    if updateShapeData(interface, master) or cleaned:
         contentsUpdated = True
 
 if basic_network:
     for netNode in netNodes:
         master = shapeLibs.getNetNodeShapeMaster(allShapeMasters,'Basic','shape=mxgraph.basic.rounded_frame' in netNode.find('./mxCell').attrib['style'])
-        if updateShapeData(netNode, master) or cleanLabel(netNode):
+        cleaned = cleanLabel(netNode)
+        if updateShapeData(netNode, master) or cleaned:
             contentsUpdated = True
 
 if fluid_network:
     for netNode in netNodes:
         master = shapeLibs.getNetNodeShapeMaster(allShapeMasters,'Fluid','shape=mxgraph.basic.rounded_frame' in netNode.find('./mxCell').attrib['style'])
-        if updateShapeData(netNode, master, overwrite_list=['fillColor']) or cleanLabel(netNode):
+        cleaned = cleanLabel(netNode)
+        if updateShapeData(netNode, master, overwrite_list=['fillColor']) or cleaned:
             contentsUpdated = True
 
 for refNode in refNodes:
     master = shapeLibs.getRefNodeShapeMaster(allShapeMasters,'Reference','(Vent)' in refNode.attrib['About'])
-    if updateShapeData(refNode, master) or cleanLabel(refNode):
+    cleaned = cleanLabel(refNode)
+    if updateShapeData(refNode, master) or cleaned:
         contentsUpdated = True
 
 master = shapeLibs.getGroundShapeMaster(allShapeMasters)
 for gndNode in gndNodes:
-    if updateShapeData(gndNode, master) or cleanLabel(gndNode):
+    cleaned = cleanLabel(gndNode)
+    if updateShapeData(gndNode, master) or cleaned:
         contentsUpdated = True
 
 master = shapeLibs.getPortShapeMaster(allShapeMasters,'0')
 for port in ports:
-    if updateShapeData(port, master, overwrite_list=['fontColor']) or cleanLabel(port):
+    cleaned = cleanLabel(port)
+    if updateShapeData(port, master, overwrite_list=['fontColor']) or cleaned:
         contentsUpdated = True
 
 for textBox in doxNotices+doxCopyrights+doxLicenses+doxData:
-- 
2.43.0


From 54e35eaaf2a0fce740c08e9438176eae990575af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 70/85] fix: netexport crashed or hung on drawings it should
 refuse

---
 draw/netexport.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index 76c616a..5560292 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -99,18 +99,21 @@ def getParentId(obj):
 # returns True if 'obj' is a descendant of 'of', by their id attributes.
 # This can be used to find out if an object belongs within a network, either as
 # an immediate child or multiple levels down.
-# Note that all items in objects must ultimately have "0" as their parent or
-# this will infinite loop TODO improve
+# An item whose parent isn't in the drawing isn't a descendant of anything.
 def isDescendant(obj, of, objects):
     obj_id    = obj.attrib['id']
     of_id     = of.attrib['id']
     parent_id = getParentId(obj)
     while '0' != parent_id:
+        parent_found = False
         for an_object in objects:
             if parent_id == an_object.attrib['id']:
-                obj_id    = an_object.attrib['id']
-                parent_id = getParentId(an_object)
+                obj_id       = an_object.attrib['id']
+                parent_id    = getParentId(an_object)
+                parent_found = True
                 break;
+        if not parent_found:
+            return False
         if of_id == obj_id:
             return True
     return False
@@ -334,7 +337,7 @@ def getPortNode(port, nodes, gnds):
 def getPortTargetName(port, links, nodes, gnds):
     result = getPortLinkName(port, links)
     if '' == result:
-        result = getPortNodeName(port, links)
+        result = getPortNodeName(port, nodes, gnds)
     return result
 
 # Copies attributes from 'from_attr' to 'to_attr' and returns True if
@@ -935,6 +938,9 @@ for an_object in objects:
             elif 'assumptions' == gunns_attribs['subtype']:
                 doxAssumptions.append(an_object)
 
+if len(netConfig) < 1:
+    sys.exit(console.abort('there is no network config.'))
+
 # Collect all the network elements we care about -- only <gunns> tagged and are inside the
 # network container.
 for an_object in objects:
@@ -1033,8 +1039,6 @@ if len(links) < 1:
     sys.exit(console.abort('there are no links.'))
 if (countBasicObjects(links) > 0) and (countFluidObjects(links) > 0):
     sys.exit(console.abort('there are both basic and fluid links.'))
-if len(netConfig) < 1:
-    sys.exit(console.abort('there is no network config.'))
 if '' == networkName:
     sys.exit(console.abort('the network name is empty.'))
 if networkName != baseFileName:
@@ -1224,6 +1228,11 @@ for port in ports:
         sys.exit(console.abort('a port ' + port_attr['label'] + ' on ' + nodeName + ' isn\'t connected to a link.'))
     if '' == nodeName:
         sys.exit(console.abort('a port ' + port_attr['label'] + ' on ' + linkName + ' isn\'t connected to a node.'))
+
+# Now that every port is known to connect, check for duplicate ports.
+for port in ports:
+    port_attr = port.attrib
+    linkName  = getPortLinkName(port, links)
     # A link cannot have more than one port with the same label unless they connect
     # to nodes in different containers, i.e. the main network and a sub-net interface.
     portNodeParentId = getParentId(getPortNode(port, numberedNodes, gndNodes))
-- 
2.43.0


From cfbcc355d7efcf8d1fbd9c27e26c300d63f636ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 71/85] fix: netexport moved other shape data whose name ends
 with the missing one's

---
 draw/netexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index 5560292..f6c51db 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -458,7 +458,7 @@ def updateConfigInputData(to_attr, from_attr, obj_type):
                 term  = from_key[len(ciNum):]
                 found = False
                 for to_key, to_value in to_attr.items():
-                    if to_key.endswith(term):
+                    if to_key not in from_attr and None != re.search('^([c,i])([0-9])', to_key) and to_key.split('.', 1)[-1] == term:
                         found = True
                         print('    ' + console.note('moved shape data: ' + from_key + ' in ' + obj_type + ': ' + to_attr['label'] + '.'))
                         to_attr[from_key] = to_value
-- 
2.43.0


From 35a819511dcf490bd6390677b52837aa39cf55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 72/85] fix: netexport renumbered reference nodes more than
 once

---
 draw/netexport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index f6c51db..b957cb7 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -1081,14 +1081,16 @@ for node in netNodes:
 nodeList.sort(key=lambda tup:tup[0])
 nodeCount  = 0
 renumbered = False
+renumberedRefNodes = []
 for node in nodeList:
     if node[0] != nodeCount:
         # Renumber reference nodes to follow the renumbered normal node.  Note that
         # this can be unreliable - if a reference node shares a number with 2 or more
         # normal nodes, which normal node should the rerence node match?
         for refNode in refNodes:
-            if refNode.attrib['label'] == node[1].attrib['label']:
+            if refNode not in renumberedRefNodes and refNode.attrib['label'] == node[1].attrib['label']:
                 refNode.attrib['label'] = str(nodeCount)
+                renumberedRefNodes.append(refNode)
         node[1].attrib['label'] = str(nodeCount)
         if not renumbered:
             renumbered      = True
-- 
2.43.0


From dd3345add2798c7afddfa63e95d3e9383ca731c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 73/85] fix: netexport looked for spotters' custom libraries in
 the last link

---
 draw/netexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index b957cb7..fd8047d 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -1109,7 +1109,7 @@ for link in links:
     if 'customLib' in gunns_attr:
         customLibs.append(gunns_attr['customLib'])
 for spotter in spotters:
-    gunns_attr = link.find('./gunns').attrib
+    gunns_attr = spotter.find('./gunns').attrib
     if 'customLib' in gunns_attr:
         customLibs.append(gunns_attr['customLib'])
 
-- 
2.43.0


From 4acd06fee239f1ea30c8adab86d323da7f0c5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 74/85] fix: netexport didn't update the duplicate id of a
 sub-network interface

---
 draw/netexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/draw/netexport.py b/draw/netexport.py
index fd8047d..6e31cf6 100644
--- a/draw/netexport.py
+++ b/draw/netexport.py
@@ -1388,7 +1388,7 @@ for subNetIf in subNetIfs:
             subNetUpdated = True
         elif duplicateElems[0].attrib['OfId'] != isDuplicateOf.attrib['id']:
             # Modify the existing duplicate of element and delete any others.
-            duplicateElems[0].attrib['OfId'] != isDuplicateOf.attrib['id']
+            duplicateElems[0].attrib['OfId'] = isDuplicateOf.attrib['id']
             for duplicateElem in duplicateElems[1:]:
                 subNetIf.remove(duplicateElem)
             subNetUpdated = True
-- 
2.43.0


From 74b5c1857d899ec18e32d18f9e17132274c4adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 75/85] fix: resizing the minor-step log before a pending log
 file is written lost the data to be written

---
 core/GunnsMinorStepLog.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/GunnsMinorStepLog.cpp b/core/GunnsMinorStepLog.cpp
index 02ecc0e..f44fefe 100755
--- a/core/GunnsMinorStepLog.cpp
+++ b/core/GunnsMinorStepLog.cpp
@@ -463,14 +463,16 @@ void GunnsMinorStepLog::updateAsync()
 /// @details  If the commanded size is different from the current buffer size, then clear the buffer
 ///           vector and refill the vector with fill data to the new given size.  The startLogging
 ///           function is called to reset the buffer head and valid frames count, and enable
-///           recording from the solver.
+///           recording from the solver.  This waits until a pending file has been written, so that the
+///           data to be written isn't lost.
 ///
 /// @note  This should only be called in simulation initialization or freeze, because it can take
 ///        a long time complete and could cause frame overruns if called during run.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsMinorStepLog::updateFreeze()
 {
-    if (mSize != mInputData.mLogSteps and mInputData.mLogSteps > 0 and mBuffer.size() > 0) {
+    if (mSize != mInputData.mLogSteps and mInputData.mLogSteps > 0 and mBuffer.size() > 0 and
+            WRITING_FILE != mState) {
         /// - Save a frame of data for sizing of frames after the vector has been cleared.
         GunnsMinorStepData saveFrame(mBuffer[0]);
 
-- 
2.43.0


From 0e485c99707792dc39f4657a903146ece3bcca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:37 +0000
Subject: [PATCH 76/85] fix: QuadraticRootFit::init checked the range for a
 singularity with the previous coefficients

---
 ms-utils/math/approximation/QuadraticRootFit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/QuadraticRootFit.cpp b/ms-utils/math/approximation/QuadraticRootFit.cpp
index 8a74279..29c2fd2 100644
--- a/ms-utils/math/approximation/QuadraticRootFit.cpp
+++ b/ms-utils/math/approximation/QuadraticRootFit.cpp
@@ -87,7 +87,7 @@ void QuadraticRootFit::init(const double a,    const double b,
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
     TS_GENERIC_IF_ERREX((std::fabs(b) < DBL_EPSILON), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -mB / mC && -mB / mC < maxX - flt_epsilon), TsInitializationException,
+    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -0.25 * a * a / b && -0.25 * a * a / b < maxX - flt_epsilon), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From 8bd342db3cb897b5eb7d8a03a922d83ecae50cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 77/85] fix: fire source blockage scales the trace compound
 flow with the bulk flow

---
 aspects/fluid/source/GunnsFluidFireSource.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidFireSource.cpp b/aspects/fluid/source/GunnsFluidFireSource.cpp
index 66072d1..df0f42d 100644
--- a/aspects/fluid/source/GunnsFluidFireSource.cpp
+++ b/aspects/fluid/source/GunnsFluidFireSource.cpp
@@ -272,6 +272,11 @@ void GunnsFluidFireSource::step(const double dt)
         mFlowO2   *= (1.0 - mMalfBlockageValue);
         mFlowCO2  *= (1.0 - mMalfBlockageValue);
         mFlowH2O  *= (1.0 - mMalfBlockageValue);
+        if (GunnsFluidTraceCompounds* tc = mInternalFluid->getTraceCompounds()) {
+            for (int i = 0; i < tc->getConfig()->mNTypes; ++i) {
+                mTraceCompoundMassRates[i] *= (1.0 - mMalfBlockageValue);
+            }
+        }
     }
 
     /// - Convert the mass flow rate demand to molar flow rate based on the molecular weight of the
-- 
2.43.0


From 916f88b85d51602859875f321252b63a24b9bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 78/85] fix: metabolic sources move the demanded mass whatever
 fluid is in the boundary node

---
 aspects/fluid/source/GunnsFluidMetabolic.cpp  | 7 +++++++
 aspects/fluid/source/GunnsFluidMetabolic2.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidMetabolic.cpp b/aspects/fluid/source/GunnsFluidMetabolic.cpp
index 5743f58..e870bff 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic.cpp
@@ -430,6 +430,13 @@ void GunnsFluidMetabolic::updateFluid(const double dt       __attribute__((unuse
     /// - Skip jf flow demand is negligible.
     if (mFlowDemand > DBL_EPSILON) {
 
+        /// - The mass flow rate is the demand for the produced and consumed fluid, whatever fluid is in
+        ///   the boundary node that the flow formally comes from.
+        mFlowRate = mFlowDemand;
+        if (mMalfBlockageFlag) {
+            mFlowRate *= (1.0 - mMalfBlockageValue);
+        }
+
         /// - Reset the internal fluid state.
         mInternalFluid->resetState();
 
diff --git a/aspects/fluid/source/GunnsFluidMetabolic2.cpp b/aspects/fluid/source/GunnsFluidMetabolic2.cpp
index 0bb51b4..3311750 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic2.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic2.cpp
@@ -725,6 +725,13 @@ void GunnsFluidMetabolic2::updateFluid(const double dt       __attribute__((unus
     /// - Skip jf flow demand is negligible.
     if (mFlowDemand > DBL_EPSILON) {
 
+        /// - The mass flow rate is the demand for the produced and consumed fluid, whatever fluid is in
+        ///   the boundary node that the flow formally comes from.
+        mFlowRate = mFlowDemand;
+        if (mMalfBlockageFlag) {
+            mFlowRate *= (1.0 - mMalfBlockageValue);
+        }
+
         /// - Reset the internal fluid state.
         mInternalFluid->resetState();
 
-- 
2.43.0


From ea83c554c6de4d47f01adff320f462f95cf17f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 79/85] fix: limit the whole crew's oxygen consumption to what
 the node holds

---
 aspects/fluid/source/GunnsFluidMetabolic.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidMetabolic.cpp b/aspects/fluid/source/GunnsFluidMetabolic.cpp
index e870bff..e87ddc4 100644
--- a/aspects/fluid/source/GunnsFluidMetabolic.cpp
+++ b/aspects/fluid/source/GunnsFluidMetabolic.cpp
@@ -395,14 +395,16 @@ void GunnsFluidMetabolic::updateState(const double dt)
         mProducedH2O   = 0.0;
         mProducedHeat  = 0.0;
         for (int i = 0; i < GunnsFluidMetabolic::NO_METABOLIC; ++i) {
-            /// - O2 consumption rate is limited by the O2 mass in the node.
-            mConsumedO2   += std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
-                                   mNodes[1]->getContent()->getMass()) / dt,
-                                  mNCrew[i] * mO2ConsumptionRate[i]);
+            mConsumedO2   += mNCrew[i] * mO2ConsumptionRate[i];
             mProducedCO2  += mNCrew[i] * mCO2ProductionRate[i];
             mProducedH2O  += mNCrew[i] * mH2OProductionRate[i];
             mProducedHeat += mNCrew[i] * mHeatProductionRate[i];
         }
+
+        /// - Total O2 consumption rate of all the crew is limited by the O2 mass in the node.
+        mConsumedO2 = std::min((mNodes[1]->getContent()->getMassFraction(mO2) *
+                                mNodes[1]->getContent()->getMass()) / dt, mConsumedO2);
+
         const double flowDemand = mProducedH2O + mProducedCO2 - mConsumedO2;
 
         if (std::fabs(flowDemand) <= DBL_EPSILON) {
-- 
2.43.0


From 1b4bfb988b2b699d18897322c66e7c902403740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:19 +0000
Subject: [PATCH 80/85] fix: sorption bed segments pointed to freed custom
 sorbants once another was added

---
 aspects/fluid/source/GunnsFluidSorptionBed.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.hh b/aspects/fluid/source/GunnsFluidSorptionBed.hh
index 24f0c46..1390e9a 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.hh
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.hh
@@ -37,6 +37,7 @@ ASSUMPTIONS AND LIMITATIONS:
 #include "core/GunnsFluidConductor.hh"
 #include "software/SimCompatibility/TsSimCompatibility.hh"
 #include "properties/SorbantProperties.hh"
+#include <deque>
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @brief    Sorption Bed Fluid Indexes
@@ -237,7 +238,7 @@ class GunnsFluidSorptionBedConfigData : public GunnsFluidConductorConfigData
 
     protected:
         DefinedSorbantProperties*      mDefinedSorbants; /**< ** (1) trick_chkpnt_io(**) Properties of defined sorbant types. */
-        std::vector<SorbantProperties> mCustomSorbants;  /**< ** (1) trick_chkpnt_io(**) Properties of custom sorbant types. */
+        std::deque<SorbantProperties>  mCustomSorbants;  /**< ** (1) trick_chkpnt_io(**) Properties of custom sorbant types, a container that never moves its elements as segments point to them. */
 
     private:
         /// @brief  Copy constructor unavailable since declared private and not implemented.
-- 
2.43.0


From d66302c704a503a4f875b8e34bf9f7d0e7bc87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 81/85] fix: sorption bed offgas of a compound that is also a
 sorbate in the segment was lost

---
 .../fluid/source/GunnsFluidSorptionBed.cpp    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index 2b9ee6f..9111034 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -451,6 +451,14 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
     const double ndot     = flowIn / mFluid->getMWeight();
     double       thermCap = mProperties->computeThermalCapacity(mVolSorbant);
 
+    /// - Start the trace compounds masses at their inlet rates.
+    GunnsFluidTraceCompounds* tc = mFluid->getTraceCompounds();
+    if (tc) {
+        for (int i=0; i<tc->getConfig()->mNTypes; ++i) {
+            tc->setMass(i, ndot * tc->getMoleFractions()[i] * tc->getConfig()->mCompounds.at(i)->mMWeight);
+        }
+    }
+
     for (unsigned int i=0; i<mNSorbates; ++i) {
         /// - Update equilibrium loading of sorbates.
         const double pp = pIn * mSorbates[i].getMoleFraction(mFluid);
@@ -461,15 +469,12 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
         const double molWeight  = mSorbates[i].getProperties()->getCompound()->mMWeight;
         const int    fluidIndex = mSorbates[i].getFluidIndexes()->mFluid;
         const int    tcIndex    = mSorbates[i].getFluidIndexes()->mTc;
-        double       ndotInTc   = 0.0;
         double       ndotIn     = 0.0;
         if (fluidIndex >= 0) {
             ndotIn += ndot * mFluid->getMoleFraction(fluidIndex);
         }
-        const double mdotInBulk = ndotIn * molWeight;
         if (tcIndex >= 0) {
-            ndotInTc = ndot * mFluid->getTraceCompounds()->getMoleFractions()[tcIndex];
-            ndotIn += ndotInTc;
+            ndotIn += ndot * mFluid->getTraceCompounds()->getMoleFractions()[tcIndex];
         }
 
         /// - Find mole rate of desorption that would saturate the exit stream.  This is an
@@ -492,7 +497,11 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
 
         /// - Update the bulk fluid flow with the adsorption/desorption flow rate for input to the next
         ///   segment.
-        flow += exchangeFluid(fluidIndex, tcIndex, mdotInBulk, ndotInTc, -mSorbates[i].mAdsorptionRate, molWeight);
+        ///   The exchange starts from what the stream holds now, because earlier sorbates can have
+        ///   already offgassed this compound.
+        const double mdotNowBulk = (fluidIndex >= 0) ? mFluid->getConstituent(fluidType)->getMass() : 0.0;
+        const double ndotNowTc   = (tcIndex >= 0) ? mFluid->getTraceCompounds()->getMasses()[tcIndex] / molWeight : 0.0;
+        flow += exchangeFluid(fluidIndex, tcIndex, mdotNowBulk, ndotNowTc, -mSorbates[i].mAdsorptionRate, molWeight);
 
         /// - Compute offgassing produced by adsorption of sorbates, and add the offgas compounds to the
         ///   exit fluid stream.
@@ -509,12 +518,12 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
                         double offgasTcNdotIn   = 0.0;
                         double offgasMolWeight  = 0.0;
                         if (offgasIndexBulk >= 0) {
-                            offgasBulkMdotIn = flowIn * mFluid->getMassFraction(offgasIndexBulk);
+                            offgasBulkMdotIn = mFluid->getConstituent(mFluid->getType(offgasIndexBulk))->getMass();
                             offgasMolWeight  = mFluid->getProperties(mFluid->getType(offgasIndexBulk))->getMWeight();
                         }
                         if (offgasIndexTc >= 0) {
-                            offgasTcNdotIn  = ndot * mFluid->getTraceCompounds()->getMoleFractions()[offgasIndexTc];
                             offgasMolWeight = mFluid->getTraceCompounds()->getConfig()->mCompounds.at(offgasIndexTc)->mMWeight;
+                            offgasTcNdotIn  = mFluid->getTraceCompounds()->getMasses()[offgasIndexTc] / offgasMolWeight;
                         }
                         flow += exchangeFluid(offgasIndexBulk, offgasIndexTc, offgasBulkMdotIn,
                                               offgasTcNdotIn, offgasRate, offgasMolWeight);
@@ -541,7 +550,6 @@ void GunnsFluidSorptionBedSegment::update(double& flow, const double pIn, const
     mFluid->updateMass();
     mHeatFlux = heatFlux;
     mThermCap = thermCap;
-    GunnsFluidTraceCompounds* tc = mFluid->getTraceCompounds();
     if (tc) {
         tc->updateMoleFractions();
     }
-- 
2.43.0


From eaa820b5e4897803cba390474b6526d206ae551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 82/85] fix: type change conductor dropped the downstream type
 already in the flow and faulted

---
 .../fluid/conductor/GunnsFluidTypeChangeConductor.cpp  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
index bdfcc38..7425f57 100644
--- a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
@@ -274,8 +274,8 @@ void GunnsFluidTypeChangeConductor::restartModel()
 /// @param[in] toPort        (--) not used.
 ///
 /// @details  The fluid added to the downstream node is the same as the outflow from the upstream
-///           node, except we transfer the mixture fractions of the upstream port conversion types
-///           to the downstream node's conversion type.
+///           node, except we add the mixture fractions of the upstream port conversion types to
+///           those of the downstream node's conversion type.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __attribute__((unused)),
                                                    const int  fromPort __attribute__((unused)),
@@ -291,8 +291,8 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
 
         // loop i over mNumTypes:
         for (unsigned int i=0; i<mNumTypes; ++i) {
-            //   set work mole fractions[mIndexPortDown[i]] equal to work mole fractions[mIndexPortUp[i]]
-            mWorkMoleFractions[mIndexPort1[i]] = mNodes[0]->getOutflow()->getMoleFraction(mIndexPort0[i]);
+            //   add work mole fractions[mIndexPortUp[i]] to work mole fractions[mIndexPortDown[i]]
+            mWorkMoleFractions[mIndexPort1[i]] += mNodes[0]->getOutflow()->getMoleFraction(mIndexPort0[i]);
             //   zero work mole fractions[mIndexPortUp[i]]
             mWorkMoleFractions[mIndexPort0[i]] = 0.0;
         }
@@ -312,7 +312,7 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
         }
 
         for (unsigned int i=0; i<mNumTypes; ++i) {
-            mWorkMoleFractions[mIndexPort0[i]] = mNodes[1]->getOutflow()->getMoleFraction(mIndexPort1[i]);
+            mWorkMoleFractions[mIndexPort0[i]] += mNodes[1]->getOutflow()->getMoleFraction(mIndexPort1[i]);
             mWorkMoleFractions[mIndexPort1[i]] = 0.0;
         }
 
-- 
2.43.0


From 9fc5f5e713dbc4254c5e1ddd96c11e907c2d59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:31 +0000
Subject: [PATCH 83/85] fix: type change conductor passed on stale trace
 compounds instead of the upstream node's

---
 .../GunnsFluidTypeChangeConductor.cpp         | 20 +++++++++++++++++++
 .../GunnsFluidTypeChangeConductor.hh          |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
index 7425f57..d254850 100644
--- a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
+++ b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.cpp
@@ -300,6 +300,7 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
         // Finish up internal fluid with new mixture:
         mInternalFluid->setMoleAndMoleFractions(mNodes[0]->getOutflow()->getMole(), mWorkMoleFractions);
         mInternalFluid->setTemperature(mNodes[0]->getOutflow()->getTemperature());
+        convertTraceCompounds(mNodes[0]->getOutflow());
 
         // transport the flows
         mNodes[0]->collectOutflux(mFlowRate);
@@ -318,12 +319,31 @@ void GunnsFluidTypeChangeConductor::transportFluid(const bool forcedOutflow __at
 
         mInternalFluid->setMoleAndMoleFractions(mNodes[1]->getOutflow()->getMole(), mWorkMoleFractions);
         mInternalFluid->setTemperature(mNodes[1]->getOutflow()->getTemperature());
+        convertTraceCompounds(mNodes[1]->getOutflow());
 
         mNodes[1]->collectOutflux(-mFlowRate);
         mNodes[0]->collectInflux(-mFlowRate, mInternalFluid);
     }
 }
 
+////////////////////////////////////////////////////////////////////////////////////////////////////
+/// @param[in] outflow (--) The fluid flowing out of the upstream node.
+///
+/// @details  Sets the trace compounds of the internal fluid so that they are in the same proportion
+///           to the fluid mass as in the outflow from the upstream node.
+////////////////////////////////////////////////////////////////////////////////////////////////////
+void GunnsFluidTypeChangeConductor::convertTraceCompounds(const PolyFluid* outflow)
+{
+    GunnsFluidTraceCompounds* traceCompounds = mInternalFluid->getTraceCompounds();
+    if (traceCompounds) {
+        const double moleRatio = mInternalFluid->getMWeight() / outflow->getMWeight();
+        for (int i = 0; i < traceCompounds->getConfig()->mNTypes; ++i) {
+            traceCompounds->setMoleFraction(i, moleRatio * outflow->getTraceCompounds()->getMoleFractions()[i]);
+        }
+        traceCompounds->updateMasses();
+    }
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in] port (--) The port to be assigned.
 /// @param[in] node (--) The desired node to assign the port to.
diff --git a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.hh b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.hh
index 8f3eded..284ab9b 100644
--- a/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.hh
+++ b/aspects/fluid/conductor/GunnsFluidTypeChangeConductor.hh
@@ -137,6 +137,8 @@ class GunnsFluidTypeChangeConductor : public  GunnsFluidConductor
         virtual void restartModel();
         /// @brief Checks for valid implementation-specific port node assignment.
         virtual bool checkSpecificPortRules(const int port, const int node) const;
+        /// @brief  Passes the trace compounds of the upstream node through to the internal fluid.
+        void convertTraceCompounds(const PolyFluid* outflow);
 
     private:
         /// @brief  Copy constructor unavailable since declared private and not implemented.
-- 
2.43.0


From b5d2109ae625543147e6101fc546b20fd5fa7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:48 +0000
Subject: [PATCH 84/85] fix: power bus link reported zero flux because it
 shadowed the base class's mFlux

---
 aspects/electrical/PowerBus/PowerBusElect.cpp | 1 -
 aspects/electrical/PowerBus/PowerBusElect.hh  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/aspects/electrical/PowerBus/PowerBusElect.cpp b/aspects/electrical/PowerBus/PowerBusElect.cpp
index 98238e5..0b4fe03 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.cpp
+++ b/aspects/electrical/PowerBus/PowerBusElect.cpp
@@ -149,7 +149,6 @@ PowerBusElect::PowerBusElect()
                         mNumLoads(0),                             // PowerBus should always have at least one load
                         mBusVoltage(0.0),
                         mTotalCPowerLoadsPower(0.0),
-                        mFlux(0.0),
                         mResLoadsConductance(0.0),
                         mCPowerLoadsConductance(0.0),
                         mActiveResLoadsConductance(0.0),
diff --git a/aspects/electrical/PowerBus/PowerBusElect.hh b/aspects/electrical/PowerBus/PowerBusElect.hh
index 47b3512..d908f7a 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.hh
+++ b/aspects/electrical/PowerBus/PowerBusElect.hh
@@ -180,7 +180,6 @@ class PowerBusElect:public GunnsBasicLink {
         int                   mNumLoads;                          /**< *o (--) trick_chkpnt_io(**) Number of load instances to create */
         double                mBusVoltage;                        /**<    (V)  Bus Voltage */
         double                mTotalCPowerLoadsPower;             /**<    (W)  Total Power of all Constant Power Loads */
-        double                mFlux;                              /**<    (amp) Input current into the PowerBus */
         // double                mPower;                             /**< (W) Sum of all power loads */
         double                mResLoadsConductance;               /**<    (1/ohm) Total Conductance of resistive Loads */
         double                mCPowerLoadsConductance;            /**<    (1/ohm) Total Conductance of constant power loads */
-- 
2.43.0


From f7787d03e415e64be674d72ee78b48793eb866cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:48 +0000
Subject: [PATCH 85/85] fix: power bus link ignored its minimum conductance
 input

---
 aspects/electrical/PowerBus/PowerBusElect.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aspects/electrical/PowerBus/PowerBusElect.cpp b/aspects/electrical/PowerBus/PowerBusElect.cpp
index 0b4fe03..7d29968 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.cpp
+++ b/aspects/electrical/PowerBus/PowerBusElect.cpp
@@ -278,6 +278,7 @@ void PowerBusElect::validateData(const PowerBusElectConfigData &configData,
 
     //Check Input Data
     //check for valid MinConductance
+    mMinConductance = inputData.mMinConductance;
     if(0 >= mMinConductance){
         mMinConductance = 1.0E-8;
     }
-- 
2.43.0

