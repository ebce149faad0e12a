From 778fd69c118cd9e21d8107aab0f16c7fb71eb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:56 +0000
Subject: [PATCH 01/42] fix: Minkowski distance: any p, p=1 is the Manhattan
 metric, max/min use the metric itself

MinkwoskiDist stored an n-by-2 matrix in a vector (throws for every p except 1 and -1,
including the default p=2); p=1 returned the Chebyshev distance and p=-1 the Manhattan one;
maxDistance/minDistance always used the Euclidean calculator.
---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 src/gwmodelpp/spatialweight/CRSDistance.cpp         | 4 ++--
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From d8ccfdd0c1af13f18ae1bcfe570b9ea9717b309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:48 +0000
Subject: [PATCH 02/42] fix: copying a one-dimensional, matrix or space-time
 distance keeps its prepared points

The copy constructors dropped the parameter, so a copy of a prepared distance (and of a
spatial weight holding it) threw "Parameter is nullptr".
---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp  | 1 +
 src/gwmodelpp/spatialweight/DMatDistance.cpp   | 1 +
 src/gwmodelpp/spatialweight/OneDimDistance.cpp | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..983b3ee 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -87,6 +87,7 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
     mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
     mCalculator=distance.mCalculator;
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void CRSSTDistance::makeParameter(initializer_list<DistParamVariant> plist)
diff --git a/src/gwmodelpp/spatialweight/DMatDistance.cpp b/src/gwmodelpp/spatialweight/DMatDistance.cpp
index 046d007..f24eb2b 100644
--- a/src/gwmodelpp/spatialweight/DMatDistance.cpp
+++ b/src/gwmodelpp/spatialweight/DMatDistance.cpp
@@ -13,6 +13,7 @@ DMatDistance::DMatDistance(string dmatFile)
 DMatDistance::DMatDistance(const DMatDistance &distance)
 {
     mDMatFile = distance.mDMatFile;
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void DMatDistance::makeParameter(initializer_list<DistParamVariant> plist)
diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..ad255dd 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,7 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From 2ada69994249963c2403718ab455d686254f6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:04 +0000
Subject: [PATCH 03/42] fix: copying an unset spatial weight, and setting its
 weight or distance from itself

Copy construction and assignment dereferenced null parts; setWeight/setDistance deleted the
held object before cloning the argument, which may be that very object.
---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 16 ++++++++++------
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..b836c86 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+        mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     }
 
     /**
@@ -191,8 +191,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -210,8 +211,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From f484df4b64f3ad70ae754ae065c49ceac6d3246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:46 +0000
Subject: [PATCH 04/42] fix: GWRBasic multi-threaded criteria use the given
 variables and report a singular local system as a failure

fitCoreCVOmp ignored its x and y arguments; fitCoreCVOmp and fitCoreSHatOmp swallowed the failure
of a local system, so a bandwidth (or variable set) that is rejected serially got a finite criterion.
---
 src/gwmodelpp/GWRBasic.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..580abba 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -518,6 +518,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -527,9 +528,9 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
         {
             vec w = sw.weightVector(i);
             w(i) = 0.0;
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
+            mat xtw = trans(x.each_col() % w);
+            mat xtwx = xtw * x;
+            mat xtwy = xtw * y;
             try
             {
                 mat xtwx_inv = inv_sympd(xtwx);
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -550,7 +556,8 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    int flag = true;
+    bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From 706e1cd22713dfd753c014e93e63ca02294c9351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:46 +0000
Subject: [PATCH 05/42] fix: GWRBasic::fitCoreOmp: threads raced on the single
 unused row/slice when the hat matrix or C is not stored

---
 src/gwmodelpp/GWRBasic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 580abba..4ec7797 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -491,8 +491,8 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                mS.row(isStoreS() ? (i - workRange.first) : 0) = si;
-                mC.slice(isStoreC() ? (i - workRange.first) : 0) = ci;
+                if (isStoreS()) mS.row(i - workRange.first) = si;
+                if (isStoreC()) mC.slice(i - workRange.first) = ci;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From 9773aaa303a734db2141319968bb458d028a16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:23 +0000
Subject: [PATCH 06/42] fix: joining an empty list of names dereferenced its
 first element

---
 include/gwmodelpp/Logger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gwmodelpp/Logger.h b/include/gwmodelpp/Logger.h
index ce12d5f..f8561c2 100644
--- a/include/gwmodelpp/Logger.h
+++ b/include/gwmodelpp/Logger.h
@@ -18,6 +18,7 @@ namespace gwm
  */
 inline std::string strjoin(const std::string& delm, const std::vector<std::string>& str_array)
 {
+    if (str_array.empty()) return std::string();
     std::string ss = *str_array.cbegin();
     for (auto it = str_array.cbegin() + 1; it != str_array.cend(); it++)
         ss += (delm + *it);
-- 
2.43.0


From e52413d4651155c4f776cc35478f46e459926704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:10 +0000
Subject: [PATCH 07/42] fix: GTWR::fitOmp: threads raced on the single unused
 row when the hat matrix is not stored

---
 src/gwmodelpp/GTWR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..24eaf7d 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -350,7 +350,7 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From 2410ebb3542425519d20f50e510db7753fa5ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:36 +0000
Subject: [PATCH 08/42] fix: weighted quantiles read before the first
 observation when its weight alone exceeds the level

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..22b350d 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From 9dced4c20710a99c34ffe09079fe9811c662df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 09/42] fix: GWPCA standard deviations of every location were
 scaled by the weights of the last one

---
 src/gwmodelpp/GWPCA.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..ff058a8 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -20,7 +20,6 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -29,8 +28,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
-        d_all.col(i) = d;
+        d_all.col(i) = d / sqrt(sum(w));
         for (int j = 0; j < mK; j++)
         {
             loadings.slice(j).row(i) = arma::trans(V.col(j));
@@ -38,7 +36,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    mat variance = d_all % d_all;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From ae7d06e255a1be7e2a9e4c5e10f53efe50bc36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:48 +0000
Subject: [PATCH 10/42] fix: default bandwidth criterion function of GWRBasic
 and GTWR did not match the default criterion

bandwidthSelectionCriterion() reports AIC by default but CV was used until a setter (e.g. setParallelType) re-read it, so the selected bandwidth depended on unrelated setters.
---
 include/gwmodelpp/GTWR.h     | 2 +-
 include/gwmodelpp/GWRBasic.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..4ecc0c4 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -621,7 +621,7 @@ protected:
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionAICSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..01c768a 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -744,7 +744,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionAIC; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
     std::optional<double> mGoldenUpperBounds;
-- 
2.43.0


From b58b49a03b3e96772e9f4250b136d172b99b0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:48 +0000
Subject: [PATCH 11/42] fix: rounding led the golden-section search of adaptive
 bandwidths below the lower bound

Flooring each new candidate accumulates, so bandwidths smaller than the lower bound were evaluated and could be selected.
---
 src/gwmodelpp/BandwidthSelector.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..f924646 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -13,8 +13,10 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
     const double R = (sqrt(5)-1)/2;
     int iter = 0;
     double d = R * (xU - xL);
-    double x1 = adaptBw ? floor(xL + d) : (xL + d);
-    double x2 = adaptBw ? round(xU - d) : (xU - d);
+    // Rounding of adaptive bandwidths must not lead outside the search range.
+    auto bounded = [this](double x) { return std::min(std::max(x, mLower), mUpper); };
+    double x1 = bounded(adaptBw ? floor(xL + d) : (xL + d));
+    double x2 = bounded(adaptBw ? round(xU - d) : (xU - d));
     w1->setBandwidth(x1);
     w2->setBandwidth(x2);
     double f1 = DBL_MAX, f2 = DBL_MAX;
@@ -42,7 +44,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = bounded(adaptBw ? round(xL + d) : (xL + d));
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -53,7 +55,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = bounded(adaptBw ? floor(xU - d) : (xU - d));
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From 5e497e5d7451fef9a20152358ac3d2cd868f2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:48 +0000
Subject: [PATCH 12/42] fix: forward variable selection read before the first
 model when no criterion drop reached the threshold

---
 src/gwmodelpp/VariableForwardSelector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..69ae9fe 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -65,7 +65,8 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    if (models.empty()) return {};
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From b7126be8e361bb82aa67ba2cf2535ffefbc48ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 13/42] fix: GWRRobust chose the filtered or iterative
 algorithm from an uninitialised member by default

---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..d976aaa 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
-- 
2.43.0


From c9a8f6a17e55c7c01bf37c22bfacc3f533883dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:46 +0000
Subject: [PATCH 14/42] fix: GWRRobust::s() was empty: the hat matrix went to a
 member shadowing the one reported

---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index d976aaa..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From 57e3c2fbe27b1ff3fdce1d1206d8d8eb98ed4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:00 +0000
Subject: [PATCH 15/42] fix: GWRRobust::fitOmp: threads raced on the single
 unused row when the hat matrix is not stored

---
 src/gwmodelpp/GWRRobust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..bc80b67 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -200,7 +200,7 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From 383f360f3e9d0335c4f1e04cee4bfb4833bd9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:33 +0000
Subject: [PATCH 16/42] fix: GWRLocalCollinearity: hat-matrix traces
 accumulated over successive serial fits

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..741c606 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -334,6 +334,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0;
+    this->mTrStS = 0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-- 
2.43.0


From be9470b032e04e20aa3014876cdf391a309d9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:33 +0000
Subject: [PATCH 17/42] fix: GWRLocalCollinearity: threads raced on the traces
 and on an unused counter

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 741c606..6ab4763 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -275,7 +275,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
-    uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
@@ -308,7 +307,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
             }
         }
         betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
-        current++;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -465,8 +463,6 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
         shat_all(0, thread) += hatrow(i);
         shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     vec shat = sum(shat_all,1);
-- 
2.43.0


From 55306db73a67ba359e846815ac1cad37205e2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:33 +0000
Subject: [PATCH 18/42] fix: GWRLocalCollinearity::predictOmp aborted on a
 wrong coefficient size and cleared the traces of the fit

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 6ab4763..bd79bfe 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -473,13 +473,12 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
 
-    mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
@@ -512,9 +511,6 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
         betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
-    vec shat = sum(shat_all,1);
-    this->mTrS = sum(shat.row(0));
-    this->mTrStS = sum(shat.row(1));
     return betas;
 }
 #endif
-- 
2.43.0


From a1ea228ba8b256bd2a7c0537a019c96555694bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 19/42] fix: GWRGeneralized without hat matrix multiplied the
 weights as matrices and always failed

---
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..7175b81 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -274,7 +274,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -377,7 +377,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -469,7 +469,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     mBetas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -545,7 +545,7 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 mBetas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
-- 
2.43.0


From 0c980c8daf9a404393514874b36563d2370ede4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 20/42] fix: binomial GWRGeneralized without hat matrix
 returned zero coefficients

---
 src/gwmodelpp/GWRGeneralized.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 7175b81..65f4824 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -470,7 +470,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 {
                     vec wi = mWtMat2.col(i);
                     vec gwsi = gwPredict(x, myAdj, wi % mWt2);
-                    mBetas.col(i) = gwsi;
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -546,7 +546,7 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             {
                 vec wi = mWtMat2.col(i);
                 vec gwsi = gwPredict(x, myAdj, wi % mWt2);
-                mBetas.col(i) = gwsi;
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From c52ae160f41d86c2387f2bfe5db47e946121a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:56 +0000
Subject: [PATCH 21/42] fix: GWRGeneralized OpenMP AIC criterion used the
 hat-matrix trace of the first thread only

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 65f4824..5cc52ab 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -750,7 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From f0592a4052227cb9b771b34ff1edcd23b9e8a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:56 +0000
Subject: [PATCH 22/42] fix: GWRGeneralized: threads raced on the single unused
 row of the hat matrix for large data

---
 src/gwmodelpp/GWRGeneralized.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 5cc52ab..1fff4b6 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -338,7 +338,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                     vec gwsi = gwFit(x, myAdj, wi % mWt2, i, ci, s_ri);
                     betas.col(i) = gwsi;
                     mat invwt2 = 1.0 / mWt2;
-                    S.row(isStoreS ? i : 0) = s_ri;
+                    if (isStoreS) S.row(i) = s_ri;
                     mat temp = mat(ci.n_rows, ci.n_cols);
                     for (int j = 0; (uword)j < ci.n_rows; j++)
                     {
@@ -434,7 +434,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                     vec gwsi = gwFit(x, myAdj, wi % mWt2, i, ci, s_ri);
                     betas.col(i) = gwsi;
                     mat invwt2 = 1.0 / mWt2;
-                    S.row(isStoreS ? i : 0) = s_ri;
+                    if (isStoreS) S.row(i) = s_ri;
                     mat temp = mat(ci.n_rows, ci.n_cols);
                     for (int j = 0; (uword)j < ci.n_rows; j++)
                     {
-- 
2.43.0


From c98e756cb36e8971c5dfe219ea80b3a5ef450d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 23/42] fix: GWRGeneralized chose the diagnostics from an
 uninitialised family by default

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..72de215 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -414,7 +414,7 @@ private:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 protected:
-    Family mFamily;             //!< \~english Family of the model \~chinese 模型的族
+    Family mFamily = Family::Poisson;  //!< \~english Family of the model \~chinese 模型的族
     double mTol=1e-5;           //!< \~english Tolerance \~chinese 容忍值
     std::size_t mMaxiter=20;    //!< \~english Maximum of iteration \~chinese 最大迭代次数
 
-- 
2.43.0


From da89f640300232db5949011967c90f91d8ba79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 24/42] fix: default bandwidth criterion function of
 GWRGeneralized did not match the default criterion

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 72de215..d5c1453 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -444,7 +444,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
     BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
-    BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
+    BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionAICSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
-- 
2.43.0


From 8ce348348c9631f262bfecd418d2e781032e77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:14 +0000
Subject: [PATCH 25/42] fix: GWRGeneralized always reported an empty list of
 bandwidth criteria

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index d5c1453..a89f147 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -499,7 +499,7 @@ inline void GWRGeneralized::setMaxiter(size_t maxiter)
 
 inline BandwidthCriterionList GWRGeneralized::bandwidthSelectorCriterions() const
 {
-    return mBandwidthSizeSelector.bandwidthCriterion();
+    return mBandwidthSelectionCriterionList;
 }
 
 inline bool GWRGeneralized::hasHatMatrix() const
-- 
2.43.0


From c0703821f7fdb7005d451b0ba0e58c4e5b11ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 26/42] fix: default bandwidth criterion of GWRGeneralized is
 CV, the criterion its default function computes (replaces da89f64)

---
 include/gwmodelpp/GWRGeneralized.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index a89f147..4011bc7 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -443,8 +443,8 @@ protected:
     CalWtFunction mCalWtFunction = &GWRGeneralized::PoissonWtSerial;        //!< \~english Calculator for weighting \~chinese 加权函数
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
-    BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionAICSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::CV;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
+    BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
-- 
2.43.0


From 0e3e3b5e15edf075c3013e1b66f7afcb35492ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:50 +0000
Subject: [PATCH 27/42] fix: AICc of the global model in GWRGeneralized used an
 integer division

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1fff4b6..041d0aa 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -194,7 +194,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double aicc = aic + 2.0 * nVar * (nVar + 1.0) / ((double)nDp - nVar - 1.0);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From 25df66d97a0c1ab15723f96f21549ec6e029ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:50 +0000
Subject: [PATCH 28/42] fix: GWRGeneralized::predict ignored the locations,
 required a previous fit, returned the transposed coefficients and switched
 the hat matrix off

---
 src/gwmodelpp/GWRGeneralized.cpp | 37 ++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 041d0aa..a294f93 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -171,12 +171,35 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
+    uword nDp = mCoords.n_rows, nVars = mX.n_cols, nRp = locations.n_rows;
+    // Weights of the data points, used to calibrate the working weights
+    createDistanceParameter();
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
+    // Weights of the locations to predict
     createPredictionDistanceParameter(locations);
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        mWtMat2.col(i) = mSpatialWeight.weightVector(i);
+    }
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
+    bool hasHatMatrix = mHasHatMatrix;
+    mHasHatMatrix = false;
+    try
+    {
+        mBetas = trans((this->*mGGWRfitFunction)(mX, mY));
+    }
+    catch (...)
+    {
+        mHasHatMatrix = hasHatMatrix;
+        throw;
+    }
+    mHasHatMatrix = hasHatMatrix;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
 
     return mBetas;
@@ -209,7 +232,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
 } */
 mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -296,7 +319,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 #ifdef ENABLE_OPENMP
 mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -403,7 +426,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 {
     uword nVar = x.n_cols;
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
     mat betas = mat(nVar, nRp, fill::zeros);
@@ -493,7 +516,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 
 mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
-- 
2.43.0


From dc2b0b20c9deb423fbcd60244a396ae1bb2075cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 29/42] fix: GWDR::fitOmp: threads raced on the single unused
 row when the hat matrix is not stored

---
 src/gwmodelpp/GWDR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..36b3025 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -298,7 +298,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
                 onei(i) = 1;
                 mat p = (onei - si).t();
                 qdiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch(const std::exception& e)
             {
-- 
2.43.0


From 619cac80b006619d81c56d310ba647b58c27f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 30/42] fix: GWDR::fitOmp returned zero coefficients for
 singular local systems instead of failing

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 36b3025..b8ffbb6 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From 9ae14808eaa37e12dd845a405ccf39c46a24aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 31/42] fix: GWDR bandwidth optimisation crashed when the
 search tried an adaptive bandwidth below one neighbour

---
 src/gwmodelpp/GWDR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b8ffbb6..78562c3 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -772,6 +772,8 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
+        // An adaptive bandwidth needs at least one neighbour.
+        if (bandwidths[m]->adaptive() && pbw * nFeature < 1.0) return DBL_MAX;
         bandwidths[m]->setBandwidth(pbw * nFeature);
     }
     return instance->bandwidthCriterion(bandwidths);
-- 
2.43.0


From c0bde251bf3ddf3d442cd438a1ae5451b142e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 32/42] fix: GWDR bandwidth optimisation started from n times a
 fixed bandwidth and rounded the result to an integer

---
 src/gwmodelpp/GWDR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 78562c3..abd7e05 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -787,7 +787,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
     gsl_vector* steps = gsl_vector_alloc(nDim);
     for (size_t m = 0; m < nDim; m++)
     {
-        double target_value = mBandwidths[m]->adaptive() ? mBandwidths[m]->bandwidth() / double(featureCount) : mBandwidths[m]->bandwidth();
+        double target_value = mBandwidths[m]->bandwidth() / double(featureCount);
         gsl_vector_set(targets, m, target_value);
         gsl_vector_set(steps, m, step);
     }
@@ -832,7 +832,8 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            double bw = pbw * featureCount;
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(bw) : bw);
         }
     }
     gsl_multimin_fminimizer_free(minimizer);
-- 
2.43.0


From 6c445da83fa21bb74aa3d2965d2fc0562f8b1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 33/42] fix: GWRMultiscale OpenMP bandwidth criteria scored
 partial fits when a local system was singular

---
 src/gwmodelpp/GWRMultiscale.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..b0f9107 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -708,6 +708,10 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("Some local systems of the variable are singular.");
+    }
     return beta;
 }
 
@@ -745,6 +749,10 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("Some local systems of the variable are singular.");
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From 1850cc393bd59123f6bc4e43587ef02003243ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 34/42] fix: GWRMultiscale searched fixed bandwidths given as
 initial values within [0, 0]

---
 src/gwmodelpp/GWRMultiscale.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index b0f9107..253c72d 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -197,6 +197,11 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+        {
+            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
+        }
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -204,8 +209,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
 
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
-- 
2.43.0


From 11d8df3d9e6f410b9087c67c23e2d19a63ca6383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 35/42] fix: GWRMultiscale reported an uninitialised AIC

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 253c72d..5066eab 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From 1b5f7c86f1fa227f1cae9bdd8646ac9473b6d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 36/42] fix: GWDA probabilities grew with the discriminant
 score, left out the last group, and the entropy was scaled by that of one
 group less

---
 src/gwmodelpp/GWDA.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..ed519f9 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -55,16 +55,11 @@ void GWDA::run()
     }
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
-    mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
-    {
-        vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
-    }
+    mat tmp = exp(-mRes);
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / (double)NV;
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From a0424d5fc7889a1a6709ebd98f02d1bcb8a1c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 37/42] fix: multi-threaded GWDA kept the weight of each
 observation for itself

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index ed519f9..9d2b0f6 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -121,6 +121,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From 05e6c47fa99d145d5a783a250953e3ec7afb55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 38/42] fix: GWDA classified the data of the first run again in
 later runs, without leaving the observation out

---
 src/gwmodelpp/GWDA.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 9d2b0f6..07095e4 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -35,14 +35,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
@@ -100,11 +92,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -124,11 +116,11 @@ void GWDA::discriminantAnalysisOmp()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From 4c431adcde2c414be28f8b0f24c9494b21b15232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 39/42] fix: quadratic GWDA with global mean, covariance or
 prior used an empty weight matrix

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 07095e4..702ae8a 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -209,10 +209,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From 678d1d3fb8c1d033903c12e68284a1e94b7d80fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 40/42] fix: GWDA score used an integer division for an odd
 number of groups

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 702ae8a..cfe6f11 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -274,7 +274,7 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigmagw[i].row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani)); // inv(covmatj) * (xprj - meani);
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
@@ -370,7 +370,7 @@ mat GWDA::wlda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigma1gw.row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani));
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
-- 
2.43.0


From 554cc06eafdc0affe6dedd6d082a1d8924b41f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 41/42] fix: GWDA of a single variable always failed because
 its variance was left at zero

---
 src/gwmodelpp/GWDA.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index cfe6f11..64bfbf4 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -410,10 +410,7 @@ cube GWDA::wVarCov(arma::mat &x, arma::mat &wt)
         vec w = wt.col(i);
         double sumw = sum(w);
         vec wi = w / sumw;
-        if (nVar >= 2)
-        {
-            Covmat.row(i) = covwtmat(x, wi);
-        }
+        Covmat.row(i) = covwtmat(x, wi);
     }
     return Covmat;
 }
-- 
2.43.0


From 923ed2ff36825885d1def10c510d9c8c7f7ece1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 42/42] Revert "fix: GWDA of a single variable always failed
 because its variance was left at zero"

This reverts commit 554cc06eafdc0affe6dedd6d082a1d8924b41f66.
---
 src/gwmodelpp/GWDA.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 64bfbf4..cfe6f11 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -410,7 +410,10 @@ cube GWDA::wVarCov(arma::mat &x, arma::mat &wt)
         vec w = wt.col(i);
         double sumw = sum(w);
         vec wi = w / sumw;
-        Covmat.row(i) = covwtmat(x, wi);
+        if (nVar >= 2)
+        {
+            Covmat.row(i) = covwtmat(x, wi);
+        }
     }
     return Covmat;
 }
-- 
2.43.0

