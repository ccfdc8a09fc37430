From 90b186f586b3fb989d40dace9c9bd9a14ee38bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:09 +0000
Subject: [PATCH 01/53] fix: allocate one confusion matrix per label rather
 than per example

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From 075f8114aa17e7bc0bd2534d8a36a14900be9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:09 +0000
Subject: [PATCH 02/53] fix: use a valid thread index if multi-threading
 support is disabled

---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 0417d6033cd410421a49bc79bc9c562823dbdad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:38 +0000
Subject: [PATCH 03/53] fix: missing feature values do not satisfy the
 conditions of rules at prediction time, as in training

---
 .../src/mlrl/common/model/body_conjunctive.cpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
index 441136a..999acf8 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/model/body_conjunctive.hpp"
 
+#include <cmath>
+
 template<typename Threshold, typename Compare>
 ConjunctiveBody::ConditionVector<Threshold, Compare>::ConditionVector(uint32 numConditions)
     : IterableIndexedVectorDecorator<IndexedVectorDecorator<AllocatedVector<uint32>, AllocatedVector<Threshold>>>(
@@ -16,9 +18,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<const flo
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) begin[featureIndex];
+        float32 featureValue = begin[featureIndex];
 
-        if (!compare_(featureValue, threshold)) {
+        // Missing feature values do not satisfy any condition...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
@@ -40,9 +43,10 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<uint32>::
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) (tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue);
+        float32 featureValue = tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue;
 
-        if (!compare_(featureValue, threshold)) {
+        // Missing feature values do not satisfy any condition...
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
-- 
2.43.0


From ccae76ae224bad97067ebc05796488575086d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 04/53] fix: initialize the remove-unused-rules option of the
 pre-pruning factory

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..c803a22 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent),
+              minImprovement_(minImprovement) {}
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From 7977a3a473f7755b22b06c1aeb0dc3a49535a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:57 +0000
Subject: [PATCH 05/53] fix: accept only ordinal or only nominal feature
 indices for mixed feature types

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 40c55f4..d3fd38a 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -286,7 +286,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
             return EqualFeatureInfo.create_ordinal()
         if num_nominal_features == num_features:
             return EqualFeatureInfo.create_nominal()
-        return MixedFeatureInfo(num_features, ordinal_feature_indices, nominal_feature_indices)
+        return MixedFeatureInfo(num_features, ordinal_feature_indices or [], nominal_feature_indices or [])
 
     def _create_column_wise_feature_matrix(self, x, **kwargs) -> ColumnWiseFeatureMatrix:
         """
-- 
2.43.0


From 84b60cb4bbd167c34e51875a92860e5671f1c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 06/53] fix: do not sample more features than available if at
 most one feature is not retained

---
 .../common/sampling/feature_sampling_without_replacement.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..7fdc930 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -151,8 +151,10 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
 
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
-    } else {
+    } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+    } else {
+        numSamples = numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From 66349902b732fa67eb0d08bfbee36a0c2b0dedc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 07/53] fix: the peak lift function decreases after its peak
 and does not exceed its bounds

---
 .../src/mlrl/seco/lift_functions/lift_function_peak.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
index d1daa49..677c8d8 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/lift_functions/lift_function_peak.cpp
@@ -18,7 +18,7 @@ namespace seco {
                 normalization = ((float64) numLabels - 1) / ((float64) peakLabel - 1);
             } else {
                 normalization =
-                  ((float64) numLabels - (float64) totalLabels) / ((float64) totalLabels - (float64) peakLabel);
+                  ((float64) totalLabels - (float64) numLabels) / ((float64) totalLabels - (float64) peakLabel);
             }
 
             return 1 + pow(normalization, exponent) * (maxLift - 1);
@@ -100,10 +100,10 @@ namespace seco {
              */
             PeakLiftFunctionFactory(uint32 numLabels, uint32 peakLabel, float64 maxLift, float64 curvature)
                 : numLabels_(numLabels), peakLabel_(peakLabel), maxLift_(maxLift), curvature_(curvature),
-                  maxLiftsAfterPeak_(numLabels - peakLabel) {
-                for (uint32 i = 0; i < numLabels - peakLabel; i++) {
+                  maxLiftsAfterPeak_(numLabels - peakLabel + 1) {
+                for (uint32 i = 0; i <= numLabels - peakLabel; i++) {
                     maxLiftsAfterPeak_[i] =
-                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, curvature);
+                      calculateLiftInternally(i + peakLabel, numLabels, peakLabel, maxLift, 1.0 / curvature);
                 }
             }
 
-- 
2.43.0


From 71b356f0308ba14f0c219148651b425a757cd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:12 +0000
Subject: [PATCH 08/53] fix: do not write a threshold beyond the last bin when
 using equal-width feature binning

---
 .../src/mlrl/common/input/feature_binning_equal_width.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
index d02a231..29c8dac 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
@@ -78,7 +78,10 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
             uint32 numExamplesInCurrentBin = numExamplesPerBin[i];
 
             if (i == sparseBinIndex || numExamplesInCurrentBin > 0) {
-                thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                if (numBins < numWidths - 1) {
+                    thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                }
+
                 indptrIterator[numBins] = numIndices;
 
                 if (i != sparseBinIndex) {
-- 
2.43.0


From b057cd2b9480b12bea50a57792982e2e5615683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:39 +0000
Subject: [PATCH 09/53] fix: allocate enough memory for negative and positive
 bins when using equal-width label binning

---
 .../src/mlrl/boosting/binning/label_binning_equal_width.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
index c3e29f4..05ff5d8 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/binning/label_binning_equal_width.cpp
@@ -38,7 +38,8 @@ namespace boosting {
                 : binRatio_(binRatio), minBins_(minBins), maxBins_(maxBins) {}
 
             uint32 getMaxBins(uint32 numLabels) const override {
-                return util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) + 1;
+                // The number of bins is restricted individually for labels with negative and positive criteria
+                return 2 * util::calculateBoundedFraction(numLabels, binRatio_, minBins_, maxBins_) + 1;
             }
 
             LabelInfo getLabelInfo(View<float64>::const_iterator criteria, uint32 numCriteria) const override {
-- 
2.43.0


From be989076c637c4833ddbba6f25ca762bcd216040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:51 +0000
Subject: [PATCH 10/53] fix: the L1 regularization shrinks the scores predicted
 by rules towards zero

---
 .../rule_evaluation_decomposable_common.hpp      | 16 ++++++++--------
 ...evaluation_non_decomposable_binned_common.hpp |  3 +--
 ...aluation_non_decomposable_complete_common.hpp |  3 +--
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
index 8c93f25..cf8e354 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
@@ -8,19 +8,19 @@
 namespace boosting {
 
     /**
-     * Returns the L1 regularization weight to be added to a specific gradient.
+     * Returns the L1 regularization weight to be added to a specific negative gradient.
      *
-     * @param gradient                  The gradient, the L1 regularization weight should be added to
+     * @param ordinate                  The negative gradient, the L1 regularization weight should be added to
      * @param l1RegularizationWeight    The L1 regularization weight
-     * @return                          The L1 regularization weight to be added to the gradient
+     * @return                          The L1 regularization weight to be added to the negative gradient
      */
-    static inline constexpr float64 getL1RegularizationWeight(float64 gradient, float64 l1RegularizationWeight) {
-        if (gradient > l1RegularizationWeight) {
+    static inline constexpr float64 getL1RegularizationWeight(float64 ordinate, float64 l1RegularizationWeight) {
+        if (ordinate > l1RegularizationWeight) {
             return -l1RegularizationWeight;
-        } else if (gradient < -l1RegularizationWeight) {
+        } else if (ordinate < -l1RegularizationWeight) {
             return l1RegularizationWeight;
         } else {
-            return 0;
+            return -ordinate;
         }
     }
 
@@ -37,7 +37,7 @@ namespace boosting {
     static inline constexpr float64 calculateOutputWiseScore(float64 gradient, float64 hessian,
                                                              float64 l1RegularizationWeight,
                                                              float64 l2RegularizationWeight) {
-        return util::divideOrZero(-gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight),
+        return util::divideOrZero(-gradient + getL1RegularizationWeight(-gradient, l1RegularizationWeight),
                                   hessian + l2RegularizationWeight);
     }
 
diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
index 68e7427..318a19f 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
@@ -116,8 +116,7 @@ namespace boosting {
                                                  View<uint32>::const_iterator weights, float64 l1RegularizationWeight) {
         for (uint32 i = 0; i < numPredictions; i++) {
             uint32 weight = weights[i];
-            float64 gradient = ordinates[i];
-            ordinates[i] += (weight * getL1RegularizationWeight(gradient, l1RegularizationWeight));
+            ordinates[i] += getL1RegularizationWeight(ordinates[i], weight * l1RegularizationWeight);
         }
     }
 
diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete_common.hpp
index 660540f..f9f04b2 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_complete_common.hpp
@@ -73,8 +73,7 @@ namespace boosting {
                                                  float64 l1RegularizationWeight) {
         if (l1RegularizationWeight > 0) {
             for (uint32 i = 0; i < numPredictions; i++) {
-                float64 gradient = ordinates[i];
-                ordinates[i] += getL1RegularizationWeight(gradient, l1RegularizationWeight);
+                ordinates[i] += getL1RegularizationWeight(ordinates[i], l1RegularizationWeight);
             }
         }
     }
-- 
2.43.0


From 97d9e86530ced2bfe07229e923a4aff1fbe8c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:51 +0000
Subject: [PATCH 11/53] fix: do not discard aggregated probabilities of the
 last threshold when fitting an isotonic calibration model

---
 .../mlrl/common/prediction/probability_calibration_isotonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 87542fe..a0414ca 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -29,7 +29,7 @@ static inline void sortByThresholdsAndEliminateDuplicates(ListOfLists<Tuple<floa
         }
     }
 
-    bins[n] = bins[numBins - 1];
+    bins[n] = previousBin;
     n++;
     bins.resize(n);
 }
-- 
2.43.0


From 11075afe494ac9c41c832cb00e08dd6c09922fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:54 +0000
Subject: [PATCH 12/53] fix: raise an error instead of recursing infinitely if
 probabilities cannot be predicted incrementally

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index d3fd38a..5d3e790 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -516,7 +516,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
                 feature_matrix, model, max_rules, predictor)
 
-        return super().predict_proba_incrementally(x, **kwargs)
+        return super()._predict_proba_incrementally(x, **kwargs)
 
     @staticmethod
     def _create_binary_predictor(learner: RuleLearnerWrapper, model: RuleModel, output_space_info: OutputSpaceInfo,
-- 
2.43.0


From 37d572e65f2715be9f04f0503aa3f39d00bb645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 13/53] fix: accept sparse matrices that do not store any
 elements explicitly

---
 .../common/mlrl/common/cython/feature_matrix.pyx          | 8 ++++++--
 .../common/mlrl/common/cython/label_matrix.pyx            | 3 ++-
 .../common/mlrl/common/cython/regression_matrix.pyx       | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
index a2f0ac0..906b445 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
@@ -91,7 +91,9 @@ cdef class CscFeatureMatrix(ColumnWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCscFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCscFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
@@ -156,7 +158,9 @@ cdef class CsrFeatureMatrix(RowWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCsrFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCsrFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
diff --git a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
index 1afda7a..b35d044 100644
--- a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
@@ -56,7 +56,8 @@ cdef class CsrLabelMatrix(RowWiseLabelMatrix):
         """
         self.indices = indices
         self.indptr = indptr
-        self.label_matrix_ptr = createCsrLabelMatrix(&indices[0], &indptr[0], num_examples, num_labels)
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.label_matrix_ptr = createCsrLabelMatrix(indices_ptr, &indptr[0], num_examples, num_labels)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
         return self.label_matrix_ptr.get()
diff --git a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
index f2db3c1..34be58f 100644
--- a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
@@ -57,7 +57,9 @@ cdef class CsrRegressionMatrix(RowWiseRegressionMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.regression_matrix_ptr = createCsrRegressionMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.regression_matrix_ptr = createCsrRegressionMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                                num_outputs)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
-- 
2.43.0


From 74ca64896764a400c2b18f5767772cbb2c61ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:58 +0000
Subject: [PATCH 14/53] fix: do not replace zeros that are explicitly stored in
 a sparse matrix with the sparse value

---
 python/subprojects/common/mlrl/common/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/arrays.py b/python/subprojects/common/mlrl/common/arrays.py
index 7b1fc9b..4fa7642 100644
--- a/python/subprojects/common/mlrl/common/arrays.py
+++ b/python/subprojects/common/mlrl/common/arrays.py
@@ -144,7 +144,8 @@ def enforce_dense(array, order: str, dtype, sparse_value=0) -> np.ndarray:
     if is_sparse(array):
         if sparse_value != 0:
             dense_array = np.full(shape=array.shape, fill_value=sparse_value, dtype=dtype, order=order)
-            dense_array[array.nonzero()] = 0
+            coo_array = array.tocoo()
+            dense_array[coo_array.row, coo_array.col] = 0
             dense_array += array
             return np.asarray(dense_array, dtype=dtype, order=order)
         return np.require(array.toarray(order=order), dtype=dtype)
-- 
2.43.0


From 927ca50a5a0117baa04644f46197d783018ec268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:58 +0000
Subject: [PATCH 15/53] fix: do not consider zeros that are explicitly stored
 in a sparse label matrix as relevant labels

---
 python/subprojects/common/mlrl/common/rule_learners.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 5d3e790..36445bf 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -439,6 +439,12 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
+
+            if np.any(y.data == 0) or not y.has_sorted_indices:
+                y = y.copy()
+                y.eliminate_zeros()
+                y.sort_indices()
+
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
-- 
2.43.0


From 1d3ca06fe3612cac7418d8ac673ab6627b952c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 16/53] fix: conditions that separate examples with positive
 feature values from sparse ones do not exclude negative values

---
 .../mlrl/common/input/feature_based_search_numerical.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp
index 58b6f8f..58a76e0 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_numerical.hpp
@@ -191,6 +191,12 @@ static inline void searchForNumericalRefinementInternally(const NumericalFeature
     bool sparse = featureVector.sparse;
 
     if (sparse) {
+        // If no examples with feature values `f > sparseValue` are covered, the previous value may belong to an example
+        // with feature value `f < sparseValue`, which must not be excluded by the following conditions...
+        if (numCovered == 0) {
+            previousValue = sparseValue;
+        }
+
         // Check if the condition `f > arithmeticMean(sparseValue, previousValue)` covers at least `minCoverage`
         // examples...
         if (numCovered >= minCoverage) {
-- 
2.43.0


From d22aa4838f52a4ae79f8037266dfedea9645057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:55 +0000
Subject: [PATCH 17/53] fix: do not count examples with missing feature values
 as covered by conditions on the feature

---
 .../common/input/feature_based_search.hpp     | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
index bc8ea93..1100d73 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
@@ -45,6 +45,29 @@ static inline std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubse
     return statisticsSubsetPtr;
 }
 
+/**
+ * Determines and returns the number of examples with non-zero weights that may be covered by a condition on a certain
+ * feature, i.e., the number of those examples for which the feature's value is not missing.
+ *
+ * @param statisticsSubset              A reference to an object of type `IResettableStatisticsSubset` that allows to
+ *                                      check whether individual examples have non-zero weights
+ * @param missingFeatureVector          A reference to an object of type `MissingFeatureVector` that provides access to
+ *                                      the indices of training examples with missing feature values
+ * @param numExamplesWithNonZeroWeights The total number of examples with non-zero weights
+ * @return                              The number of examples with non-zero weights and non-missing feature values
+ */
+static inline uint32 getNumNonMissingExamplesWithNonZeroWeights(const IResettableStatisticsSubset& statisticsSubset,
+                                                                const MissingFeatureVector& missingFeatureVector,
+                                                                uint32 numExamplesWithNonZeroWeights) {
+    for (auto it = missingFeatureVector.indices_cbegin(); it != missingFeatureVector.indices_cend(); it++) {
+        if (numExamplesWithNonZeroWeights > 0 && statisticsSubset.hasNonZeroWeight(*it)) {
+            numExamplesWithNonZeroWeights--;
+        }
+    }
+
+    return numExamplesWithNonZeroWeights;
+}
+
 /**
  * Conducts a search for the best refinement of an existing rule that can be created from a `NumericalFeatureVector`.
  *
@@ -76,6 +99,8 @@ static inline void searchForNumericalRefinement(const NumericalFeatureVector& fe
                                                 uint32 minCoverage, Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
+    numExamplesWithNonZeroWeights = getNumNonMissingExamplesWithNonZeroWeights(
+      *statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
     searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator,
                                            numExamplesWithNonZeroWeights, minCoverage, refinement);
 }
@@ -111,6 +136,8 @@ static inline void searchForNominalRefinement(const NominalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
+    numExamplesWithNonZeroWeights = getNumNonMissingExamplesWithNonZeroWeights(
+      *statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
     searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
                                          minCoverage, refinement);
 }
@@ -145,6 +172,8 @@ static inline void searchForBinaryRefinement(const BinaryFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
+    numExamplesWithNonZeroWeights = getNumNonMissingExamplesWithNonZeroWeights(
+      *statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
     searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
                                         minCoverage, refinement);
 }
@@ -180,6 +209,8 @@ static inline void searchForOrdinalRefinement(const OrdinalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
+    numExamplesWithNonZeroWeights = getNumNonMissingExamplesWithNonZeroWeights(
+      *statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
     searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
                                          minCoverage, refinement);
 }
@@ -215,6 +246,8 @@ static inline void searchForBinnedRefinement(const BinnedFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
+    numExamplesWithNonZeroWeights = getNumNonMissingExamplesWithNonZeroWeights(
+      *statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
     searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
                                         minCoverage, refinement);
 }
-- 
2.43.0


From 31c230c2c524dbac9282d37f44e94763bd5ec453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:59 +0000
Subject: [PATCH 18/53] fix: the rows of a sparse label matrix only consist of
 the labels that are stored explicitly

---
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..f17f087 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            return Vector<const uint32>(indices_cbegin(row), indices_cend(row) - indices_cbegin(row));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            return Vector<uint32>(indices_begin(row), indices_end(row) - indices_begin(row));
         }
 
         /**
-- 
2.43.0


From 83d575dc6c2ba0e9b6a95d6aa31d8792ac01e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:43 +0000
Subject: [PATCH 19/53] fix: forget about missing feature values after a
 condition on a nominal feature has been added to a rule

---
 .../src/mlrl/common/input/feature_vector_decorator_nominal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
index 9a9aac2..3dcd59a 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_vector_decorator_nominal.hpp
@@ -21,6 +21,9 @@ static inline std::unique_ptr<IFeatureVector> createFilteredNominalFeatureVector
             // Reuse the existing feature vector...
             existing.release();
             filteredDecoratorPtr = std::unique_ptr<Decorator>(existingDecorator);
+
+            // Examples with missing feature values do not satisfy the condition the interval corresponds to...
+            filteredDecoratorPtr->getView().secondView.clear();
         } else {
             // Create a new feature vector...
             filteredDecoratorPtr = std::make_unique<Decorator>(view);
-- 
2.43.0


From 272249618a66c01c959d2d7b978462834065f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:43 +0000
Subject: [PATCH 20/53] fix: thresholds between large feature values do not
 overflow

---
 cpp/subprojects/common/include/mlrl/common/util/math.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/math.hpp b/cpp/subprojects/common/include/mlrl/common/util/math.hpp
index 86c6269..9ed29a5 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/math.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/math.hpp
@@ -24,8 +24,7 @@ namespace util {
     /**
      * Calculates the arithmetic mean of two values `small` and `large`, where `small < large`.
      *
-     * The mean is calculated as `small + ((large - small) * 0.5`, instead of `(small + large) / 2`, to prevent
-     * overflows.
+     * The mean is calculated as `(small * 0.5) + (large * 0.5)`, instead of `(small + large) / 2`, to prevent overflows.
      *
      * @param small The smaller of both values
      * @param large The larger of both values
@@ -33,7 +32,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr T arithmeticMean(T small, T large) {
-        return small + ((large - small) * 0.5);
+        return (small * 0.5) + (large * 0.5);
     }
 
     /**
-- 
2.43.0


From 508a94bc692c1242cb83cdad7cfc1a1b015db7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:10 +0000
Subject: [PATCH 21/53] fix: sort the outputs for which a default rule predicts

---
 .../src/mlrl/common/rule_induction/rule_induction_common.hpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
index 0be83e5..03f961a 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_common.hpp
@@ -89,6 +89,7 @@ class AbstractRuleInduction : public IRuleInduction {
             std::unique_ptr<IEvaluatedPrediction> defaultPredictionPtr;
             ScoreProcessor scoreProcessor(defaultPredictionPtr);
             scoreProcessor.processScores(scoreVector);
+            defaultPredictionPtr->sort();
 
             std::unique_ptr<IStatisticsUpdate> statisticsUpdatePtr =
               defaultPredictionPtr->createStatisticsUpdate(statistics);
-- 
2.43.0


From 3e71eb8425d771aa80d4c5271273118ae4f3675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:10 +0000
Subject: [PATCH 22/53] fix: sort the indices of a sparse matrix that stores
 regression scores

---
 python/subprojects/common/mlrl/common/rule_learners.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 36445bf..b74ad12 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -615,6 +615,11 @@ class RegressionRuleLearner(RuleLearner, RegressorMixin, IncrementalRegressorMix
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the regression scores of the training examples')
+
+            if not y.has_sorted_indices:
+                y = y.copy()
+                y.sort_indices()
+
             y_data = np.ascontiguousarray(y.data, dtype=Float32)
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
-- 
2.43.0


From 6dcfa7c94e7088efa302321b88a7ba678df0815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 23/53] fix: avoid a data race when the coverage of examples is
 updated by multiple threads

---
 .../src/mlrl/seco/data/matrix_coverage_dense.cpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp b/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
index 81a378f..d527726 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
@@ -31,6 +31,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[i];
 
                 if (coverage == 0) {
+#ifdef _OPENMP
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ -= 1;
                 }
 
@@ -62,6 +65,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[index];
 
                 if (coverage == 0) {
+#ifdef _OPENMP
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ -= 1;
                 }
 
@@ -90,6 +96,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[i] - 1;
 
                 if (coverage == 0) {
+#ifdef _OPENMP
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ += 1;
                 }
 
@@ -121,6 +130,9 @@ namespace seco {
                 uint32 coverage = coverageIterator[index] - 1;
 
                 if (coverage == 0) {
+#ifdef _OPENMP
+    #pragma omp atomic
+#endif
                     sumOfUncoveredWeights_ += 1;
                 }
 
-- 
2.43.0


From a2fbb4eb8921c7405fb76ae7981ba2e4695a61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 24/53] fix: allow to fit isotonic calibration models if there
 are no examples with a certain label vector

---
 .../probability_calibration_isotonic.cpp      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index a0414ca..3052e61 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -113,16 +113,15 @@ static inline float64 calibrateProbability(ListOfLists<Tuple<float64>>::const_ro
     Tuple<float64> lowerBound;
     Tuple<float64> upperBound;
 
-    if (it == end) {
+    if (offset > 0) {
         lowerBound = begin[offset - 1];
-        upperBound = 1;
     } else {
-        if (offset > 0) {
-            lowerBound = begin[offset - 1];
-        } else {
-            lowerBound = 0;
-        }
+        lowerBound = 0;
+    }
 
+    if (it == end) {
+        upperBound = 1;
+    } else {
         upperBound = *it;
     }
 
@@ -140,8 +139,11 @@ void IsotonicProbabilityCalibrationModel::fit() {
 
     for (uint32 i = 0; i < numLists; i++) {
         row bins = (*this)[i];
-        sortByThresholdsAndEliminateDuplicates(bins);
-        aggregateNonIncreasingBins(bins);
+
+        if (!bins.empty()) {
+            sortByThresholdsAndEliminateDuplicates(bins);
+            aggregateNonIncreasingBins(bins);
+        }
     }
 }
 
-- 
2.43.0


From af568560fafdc68a5257e48e976bf82b5cc2afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:03 +0000
Subject: [PATCH 25/53] fix: use the automatic binary predictor if it is
 configured

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 34a701d..586c995 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -557,7 +557,7 @@ cdef class BoomerClassifierConfig(RuleLearnerConfig,
         return config
 
     def use_automatic_binary_predictor(self):
-        self.config_ptr.get().useOutputWiseBinaryPredictor()
+        self.config_ptr.get().useAutomaticBinaryPredictor()
 
 
 cdef class BoomerClassifier(ClassificationRuleLearner):
-- 
2.43.0


From 5c1df56993b2f15b8030e3250596d1532801c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:45 +0000
Subject: [PATCH 26/53] fix: evaluate sparse scores independently of their
 order

---
 .../boosting/losses/loss_decomposable_sparse_common.hpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
index 5a5ad75..7ac9605 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/losses/loss_decomposable_sparse_common.hpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <vector>
 
 namespace boosting {
 
@@ -121,11 +122,17 @@ namespace boosting {
                                              SparseSetView<float64>::value_const_iterator scoresEnd,
                                              DecomposableClassificationLoss::EvaluateFunction evaluateFunction,
                                              uint32 numLabels) {
+        // The scores are not necessarily sorted by the indices of the labels they correspond to...
+        std::vector<IndexedValue<float64>> sortedScores(scoresBegin, scoresEnd);
+        std::sort(sortedScores.begin(), sortedScores.end(), IndexedValue<float64>::CompareIndex());
+        SparseSetView<float64>::value_const_iterator scoreIterator = sortedScores.cbegin();
+        SparseSetView<float64>::value_const_iterator sortedScoresEnd = sortedScores.cend();
         float64 mean = 0;
         float64 score = 0;
         uint32 i = 0;
 
-        while (fetchNextNonZeroEvaluation(indicesBegin, indicesEnd, scoresBegin, scoresEnd, score, evaluateFunction)
+        while (fetchNextNonZeroEvaluation(indicesBegin, indicesEnd, scoreIterator, sortedScoresEnd, score,
+                                          evaluateFunction)
                < LIMIT) {
             mean = util::iterativeArithmeticMean<float64>(i + 1, score, mean);
             i++;
-- 
2.43.0


From cccba5771c9d5208878c5dae64a66b18ec16b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 27/53] fix: let the accuracy heuristic treat positive and
 negative labels equally

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0


From 38bf39c0179aca9ee989de06d81d621f93329dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 28/53] fix: keep the objects alive an incremental predictor
 depends on

---
 .../common/mlrl/common/rule_learners.py       | 46 +++++++++++--------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index b74ad12..7bf5eb7 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -117,12 +117,15 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         functionality.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor, *dependencies):
             """
             :param feature_matrix:          A `RowWiseFeatureMatrix` that stores the feature values of the query
                                             examples
             :param incremental_predictor:   The incremental predictor to be used for obtaining predictions
+            :param dependencies:            Objects, the incremental predictor depends on and that must therefore not be
+                                            deleted before the predictor
             """
+            self.dependencies = dependencies
             self.feature_matrix = feature_matrix
             self.incremental_predictor = incremental_predictor
 
@@ -149,14 +152,19 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         Allows to obtain predictions from a `RuleLearner` incrementally.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor,
+                     *dependencies):
             """
             :param feature_matrix:  A `RowWiseFeatureMatrix` that stores the feature values of the query examples
             :param model:           The model to be used for obtaining predictions
             :param max_rules:       The maximum number of rules to be used for prediction. Must be at least 1 or 0, if
                                     the number of rules should not be restricted
             :param predictor:       The predictor to be used for obtaining predictions
+            :param dependencies:    Objects, the predictor depends on and that must therefore not be deleted before the
+                                    predictor
             """
+            self.dependencies = dependencies
+
             if max_rules != 0:
                 assert_greater_or_equal('max_rules', max_rules, 1)
             self.feature_matrix = feature_matrix
@@ -257,14 +265,16 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         if learner.can_predict_scores(feature_matrix, num_outputs):
             log.debug('A dense matrix is used to store the predicted scores')
             model = self.model_
-            predictor = self._create_score_predictor(learner, model, self.output_space_info_, num_outputs,
-                                                     feature_matrix)
+            output_space_info = self.output_space_info_
+            predictor = self._create_score_predictor(learner, model, output_space_info, num_outputs, feature_matrix)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
+            dependencies = (learner, model, output_space_info)
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), *dependencies)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           *dependencies)
 
         return super()._predict_scores_incrementally(x, **kwargs)
 
@@ -510,17 +520,16 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
         if learner.can_predict_probabilities(feature_matrix, num_outputs):
             log.debug('A dense matrix is used to store the predicted probability estimates')
             model = self.model_
-            predictor = self._create_probability_predictor(learner, model, self.output_space_info_,
-                                                           self.marginal_probability_calibration_model_,
-                                                           self.joint_probability_calibration_model_, num_outputs,
-                                                           feature_matrix)
+            dependencies = (model, self.output_space_info_, self.marginal_probability_calibration_model_,
+                            self.joint_probability_calibration_model_)
+            predictor = self._create_probability_predictor(learner, *dependencies, num_outputs, feature_matrix)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalProbabilityPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), learner, *dependencies)
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
-                feature_matrix, model, max_rules, predictor)
+                feature_matrix, model, max_rules, predictor, learner, *dependencies)
 
         return super()._predict_proba_incrementally(x, **kwargs)
 
@@ -589,16 +598,17 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             sparse_predictions = self.sparse_predictions_
             log.debug('A %s matrix is used to store the predicted labels', 'sparse' if sparse_predictions else 'dense')
             model = self.model_
-            predictor = self._create_binary_predictor(learner, model, self.output_space_info_,
-                                                      self.marginal_probability_calibration_model_,
-                                                      self.joint_probability_calibration_model_, num_outputs,
-                                                      feature_matrix, sparse_predictions)
+            dependencies = (model, self.output_space_info_, self.marginal_probability_calibration_model_,
+                            self.joint_probability_calibration_model_)
+            predictor = self._create_binary_predictor(learner, *dependencies, num_outputs, feature_matrix,
+                                                      sparse_predictions)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), learner, *dependencies)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           learner, *dependencies)
 
         return super()._predict_binary_incrementally(x, **kwargs)
 
-- 
2.43.0


From 482c167bfe0e02068baf90a45c0fecf7a9434030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:04 +0000
Subject: [PATCH 29/53] fix: do not return views on the memory of an
 incremental predictor

---
 .../common/mlrl/common/cython/prediction.pyx           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pyx b/python/subprojects/common/mlrl/common/cython/prediction.pyx
index b630df3..9e394ff 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pyx
@@ -49,7 +49,7 @@ cdef class IncrementalBinaryPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef uint8* array = prediction_matrix_ptr.get()
         cdef uint8[:, ::1] prediction_matrix = c_view_uint8(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class BinaryPredictor:
@@ -135,8 +135,8 @@ cdef class IncrementalSparseBinaryPredictor:
         cdef uint32* indices = prediction_matrix_ptr.getIndices()
         cdef uint32* indptr = prediction_matrix_ptr.getIndptr()
         data = np.ones(shape=(num_dense_elements), dtype=np.uint8) if num_dense_elements > 0 else np.asarray([])
-        pred_indices = np.asarray(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
-        pred_indptr = np.asarray(view_uint32(indptr, num_rows + 1))
+        pred_indices = np.array(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
+        pred_indptr = np.array(view_uint32(indptr, num_rows + 1))
         return csr_array((data, pred_indices, pred_indptr), shape=(num_rows, num_cols))
 
 
@@ -226,7 +226,7 @@ cdef class IncrementalScorePredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 cdef class ScorePredictor:
     """
@@ -309,7 +309,7 @@ cdef class IncrementalProbabilityPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class ProbabilityPredictor:
-- 
2.43.0


From 8a13e9f0e2b854c06680ebd977b968856710496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 30/53] fix: retain trailing rows and columns without non-zero
 values when loading sparse ARFF files

---
 .../subprojects/testbed/mlrl/testbed/data.py  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 1da5244..943f25a 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -381,7 +381,9 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
         matrix_data = data[0]
         matrix_row_indices = data[1]
         matrix_col_indices = data[2]
-        shape = (max(matrix_row_indices) + 1, max(matrix_col_indices) + 1)
+        # The dimensions of the matrix cannot be inferred from the non-zero elements, as trailing rows and columns may not
+        # contain any of them...
+        shape = (__count_arff_rows(arff_file), len(arff_dict['attributes']))
         matrix = coo_array((matrix_data, (matrix_row_indices, matrix_col_indices)), shape=shape, dtype=feature_dtype)
         matrix = matrix.tocsc()
     except arff.BadLayout:
@@ -394,6 +396,23 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
     return matrix, features, relation
 
 
+def __count_arff_rows(arff_file: str) -> int:
+    """
+    Returns the number of rows in an ARFF file.
+
+    :param arff_file:   The path of the ARFF file (including the suffix)
+    :return:            The number of rows in the ARFF file
+    """
+    with open(arff_file, 'r', encoding=ENCODING_UTF8) as file:
+        rows = (line.strip() for line in file)
+
+        for row in rows:
+            if row.upper().startswith('@DATA'):
+                break
+
+        return sum(1 for row in rows if row and not row.startswith('%'))
+
+
 def __load_arff_as_dict(arff_file: str, sparse: bool) -> dict:
     """
     Loads the content of an ARFF file.
-- 
2.43.0


From 757f590ecf666de65f438ee5d47b1cec67b68290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 31/53] fix: support outputs at the end of an ARFF file when
 parsing its @relation declaration

---
 python/subprojects/testbed/mlrl/testbed/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 943f25a..4327d19 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -456,7 +456,8 @@ def __parse_outputs_from_relation(relation: str, features: list) -> List[Output]
         parameter_value = parameter_value[:index]
 
     num_outputs = int(parameter_value)
-    return [Output(__parse_feature_or_output_name(features[i][0])) for i in range(num_outputs)]
+    output_features = features[:num_outputs] if num_outputs >= 0 else features[num_outputs:]
+    return [Output(__parse_feature_or_output_name(feature[0])) for feature in output_features]
 
 
 def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaData:
-- 
2.43.0


From 8e4dd5024a72ec98707f9c8ffc849ad3c40cfc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 32/53] fix: allow examples without relevant labels when
 writing label vectors

---
 python/subprojects/testbed/mlrl/testbed/label_vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/label_vectors.py b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
index 50c68a4..9cd335d 100644
--- a/python/subprojects/testbed/mlrl/testbed/label_vectors.py
+++ b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
@@ -63,7 +63,8 @@ class LabelVectorWriter(OutputWriter):
 
                 for label_vector_string, frequency in unique_label_vector_strings.items():
                     label_vector = np.asarray(
-                        [int(label_index) for label_index in label_vector_string.split(separator)])
+                        [int(label_index) for label_index in label_vector_string.split(separator) if label_index],
+                        dtype=int)
                     unique_label_vectors.append((label_vector, frequency))
 
                 self.unique_label_vectors = unique_label_vectors
-- 
2.43.0


From 2e072e6b60e31ef6fb5d759ed740d5dd53e9b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 33/53] fix: do not mix up thresholds and probabilities when
 writing calibration models to CSV files

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index af73bea..68511b0 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -102,7 +102,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
                     column_threshold = self.__format_threshold_column(list_index)
 
                     if len(bin_list) > i:
-                        probability, threshold = bin_list[i]
+                        threshold, probability = bin_list[i]
                         columns[column_probability] = format_float(probability, decimals=decimals)
                         columns[column_threshold] = format_float(threshold, decimals=decimals)
                         end = False
-- 
2.43.0


From 434ecdcf93720c87c85ee03c4aa134f7acd8fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 34/53] fix: do not duplicate the bins of calibration models
 that are written to several sinks

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index 68511b0..631d22f 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -61,6 +61,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Formattable.format`
             """
+            self.bins.clear()
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 4)
             bins = self.bins
@@ -86,6 +87,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Tabularizable.tabularize`
             """
+            self.bins.clear()
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 0)
             bins = self.bins
-- 
2.43.0


From a1c2bcedd9a939813a7ee3526566f022a76fd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 35/53] fix: use a distinct option for the median absolute
 error

---
 python/subprojects/testbed/mlrl/testbed/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/evaluation.py b/python/subprojects/testbed/mlrl/testbed/evaluation.py
index 961da97..d90f464 100644
--- a/python/subprojects/testbed/mlrl/testbed/evaluation.py
+++ b/python/subprojects/testbed/mlrl/testbed/evaluation.py
@@ -73,7 +73,7 @@ OPTION_MEAN_ABSOLUTE_ERROR = 'mean_absolute_error'
 
 OPTION_MEAN_SQUARED_ERROR = 'mean_squared_error'
 
-OPTION_MEDIAN_ABSOLUTE_ERROR = 'mean_absolute_error'
+OPTION_MEDIAN_ABSOLUTE_ERROR = 'median_absolute_error'
 
 OPTION_MEAN_ABSOLUTE_PERCENTAGE_ERROR = 'mean_absolute_percentage_error'
 
-- 
2.43.0


From e03dba1bc27b914bf6de115c776b9d8f9e55b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 36/53] fix: respect the maximum size when evaluating models
 incrementally

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 914ee69..ed76948 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -198,9 +198,11 @@ class IncrementalEvaluation(Evaluation):
 
             min_size = self.min_size
             next_step_size = min_size if min_size > 0 else step_size
-            current_size = min(next_step_size, total_size)
+            current_size = 0
 
-            while incremental_predictor.has_next():
+            while current_size < total_size and incremental_predictor.has_next():
+                next_step_size = min(next_step_size, total_size - current_size)
+                current_size += next_step_size
                 log.info('Predicting for %s %s examples using a model of size %s...', x.shape[0], data_type.value,
                          current_size)
                 start_time = timer()
@@ -223,7 +225,6 @@ class IncrementalEvaluation(Evaluation):
                                                learner=learner)
 
                 next_step_size = step_size
-                current_size = min(current_size + next_step_size, total_size)
 
 
 class Experiment(DataSplitter.Callback):
-- 
2.43.0


From 40ed068c9238e0296a7c38c28a56e1aeae64fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 37/53] fix: average incremental evaluation results across
 models of the same size

---
 python/subprojects/testbed/mlrl/testbed/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/evaluation.py b/python/subprojects/testbed/mlrl/testbed/evaluation.py
index d90f464..7fd5287 100644
--- a/python/subprojects/testbed/mlrl/testbed/evaluation.py
+++ b/python/subprojects/testbed/mlrl/testbed/evaluation.py
@@ -381,7 +381,7 @@ class EvaluationWriter(OutputWriter, ABC):
 
     def __init__(self, sinks: List[OutputWriter.Sink]):
         super().__init__(sinks)
-        self.results: Dict[str, EvaluationWriter.EvaluationResult] = {}
+        self.results: Dict[Tuple[Optional[DataType], int], EvaluationWriter.EvaluationResult] = {}
 
     @abstractmethod
     def _populate_result(self, data_split: DataSplit, result: EvaluationResult, predictions, ground_truth):
@@ -401,8 +401,9 @@ class EvaluationWriter(OutputWriter, ABC):
                               learner, data_type: Optional[DataType], prediction_type: Optional[PredictionType],
                               prediction_scope: Optional[PredictionScope], predictions: Optional[Any],
                               train_time: float, predict_time: float) -> Optional[Any]:
-        result = self.results[data_type] if data_type in self.results else EvaluationWriter.EvaluationResult()
-        self.results[data_type] = result
+        # Results for models of different sizes must not be mixed up when averaging across several folds...
+        key = (data_type, 0 if prediction_scope is None else prediction_scope.get_model_size())
+        result = self.results.setdefault(key, EvaluationWriter.EvaluationResult())
         num_folds = data_split.get_num_folds()
         fold = data_split.get_fold()
         result.put(EVALUATION_MEASURE_TRAINING_TIME, train_time, num_folds=num_folds, fold=fold)
-- 
2.43.0


From 23752bf863026c10dd35b8f8686b3d41093d2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 38/53] fix: declare numerical predictions as such in ARFF
 files

---
 .../testbed/mlrl/testbed/predictions.py       | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/predictions.py b/python/subprojects/testbed/mlrl/testbed/predictions.py
index abfbd82..d26eb80 100644
--- a/python/subprojects/testbed/mlrl/testbed/predictions.py
+++ b/python/subprojects/testbed/mlrl/testbed/predictions.py
@@ -10,7 +10,7 @@ import numpy as np
 
 from mlrl.common.options import Options
 
-from mlrl.testbed.data import MetaData, Output, save_arff_file
+from mlrl.testbed.data import Feature, FeatureType, MetaData, Output, save_arff_file
 from mlrl.testbed.data_splitting import DataSplit, DataType
 from mlrl.testbed.format import OPTION_DECIMALS, format_array
 from mlrl.testbed.io import SUFFIX_ARFF, get_file_name_per_fold
@@ -68,6 +68,13 @@ class PredictionWriter(OutputWriter):
             super().__init__(options=options)
             self.output_dir = output_dir
 
+        @staticmethod
+        def __create_attribute(name: str, problem_type: ProblemType, values) -> Feature:
+            # Only labels have the possible values 0 and 1, whereas scores and probabilities are numerical...
+            if problem_type == ProblemType.CLASSIFICATION and issubclass(values.dtype.type, np.integer):
+                return Output(name)
+            return Feature(name, FeatureType.NUMERICAL)
+
         # pylint: disable=unused-argument
         def write_output(self, problem_type: ProblemType, meta_data: MetaData, data_split: DataSplit,
                          data_type: Optional[DataType], prediction_scope: Optional[PredictionScope], output_data, **_):
@@ -83,8 +90,14 @@ class PredictionWriter(OutputWriter):
 
             file_name = get_file_name_per_fold(prediction_scope.get_file_name(data_type.get_file_name('predictions')),
                                                SUFFIX_ARFF, data_split.get_fold())
-            features = [Output('Ground Truth ' + output.name) for output in meta_data.outputs]
-            outputs = [Output('Prediction ' + output.name) for output in meta_data.outputs]
+            features = [
+                self.__create_attribute('Ground Truth ' + output.name, problem_type, ground_truth)
+                for output in meta_data.outputs
+            ]
+            outputs = [
+                self.__create_attribute('Prediction ' + output.name, problem_type, predictions)
+                for output in meta_data.outputs
+            ]
             prediction_meta_data = MetaData(features, outputs, outputs_at_start=False)
             save_arff_file(self.output_dir, file_name, ground_truth, predictions, prediction_meta_data)
 
-- 
2.43.0


From 3046465a9ecd2316cfe1076005ffd0769d111e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 39/53] fix: write nominal values instead of their indices to
 ARFF files

---
 python/subprojects/testbed/mlrl/testbed/data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 4327d19..8431140 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -256,16 +256,20 @@ def save_arff_file(output_dir: str, arff_file_name: str, x: np.ndarray, y: np.nd
         relation_sign = -1
         features = x_features + y_features
 
+    def get_value(index: int, value):
+        nominal_values = features[index][1]
+        return nominal_values[int(value)] if isinstance(nominal_values, list) and not np.isnan(value) else value
+
     if sparse:
         data = [{} for _ in range(x.shape[0])]
     else:
-        data = [[0 for _ in range(x.shape[1] + y.shape[1])] for _ in range(x.shape[0])]
+        data = [[get_value(i, 0) for i in range(x.shape[1] + y.shape[1])] for _ in range(x.shape[0])]
 
     for keys, value in list(x.items()):
-        data[keys[0]][x_prefix + keys[1]] = value
+        data[keys[0]][x_prefix + keys[1]] = get_value(x_prefix + keys[1], value)
 
     for keys, value in list(y.items()):
-        data[keys[0]][y_prefix + keys[1]] = value
+        data[keys[0]][y_prefix + keys[1]] = get_value(y_prefix + keys[1], value)
 
     with open(arff_file, 'w', encoding=ENCODING_UTF8) as file:
         file.write(
-- 
2.43.0


From 50b02d1188469738f5e8389570a9fea68d04809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 40/53] fix: assign names to outputs according to the order of
 the columns in ARFF files

---
 python/subprojects/testbed/mlrl/testbed/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 8431140..1a6e90c 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -473,6 +473,9 @@ def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaDa
     :param outputs:     A list that contains the all outputs
     :return:            The `MetaData` that has been created
     """
+    # The order of the outputs must correspond to the order of the columns in the ARFF file...
+    column_indices = {__parse_feature_or_output_name(feature[0]): i for i, feature in enumerate(features)}
+    outputs = sorted(outputs, key=lambda output: column_indices.get(output.name, len(features)))
     output_names = {output.name for output in outputs}
     outputs_at_start = False
     feature_list = []
-- 
2.43.0


From d708c3a6294ddef24cb3de42c85da6ad284c283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 41/53] fix: Allow to use one-hot-encoding together with
 predefined folds

---
 python/subprojects/testbed/mlrl/testbed/data_splitting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data_splitting.py b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
index 0713025..f6694a4 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_splitting.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
@@ -13,9 +13,13 @@ from os import path
 from timeit import default_timer as timer
 from typing import List, Optional
 
+import numpy as np
+
 from scipy.sparse import vstack
 from sklearn.model_selection import KFold, train_test_split
 
+from mlrl.common.arrays import is_sparse
+
 from mlrl.testbed.data import MetaData, load_data_set, load_data_set_and_meta_data, one_hot_encode
 from mlrl.testbed.format import format_duration
 from mlrl.testbed.io import SUFFIX_ARFF, SUFFIX_XML, get_file_name, get_file_name_per_fold
@@ -449,7 +453,8 @@ class CrossValidationSplitter(DataSplitter):
                         train_x = x
                         train_y = y
                     else:
-                        train_x = vstack((train_x, x))
+                        # If one-hot-encoding is used, the feature matrices are dense...
+                        train_x = vstack((train_x, x)) if is_sparse(x) else np.vstack((train_x, x))
                         train_y = vstack((train_y, y))
 
             # Obtain test set for current fold...
-- 
2.43.0


From f3795403f07a8ce89258d66433214bb08eda63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 42/53] fix: treat explicit zeros in sparse ARFF files like
 omitted values

---
 python/subprojects/testbed/mlrl/testbed/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 1a6e90c..95e0a66 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -390,6 +390,8 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
         shape = (__count_arff_rows(arff_file), len(arff_dict['attributes']))
         matrix = coo_array((matrix_data, (matrix_row_indices, matrix_col_indices)), shape=shape, dtype=feature_dtype)
         matrix = matrix.tocsc()
+        # Zeros that are explicitly given in the ARFF file must not be stored as non-zero elements...
+        matrix.eliminate_zeros()
     except arff.BadLayout:
         arff_dict = __load_arff_as_dict(arff_file, sparse=False)
         data = arff_dict['data']
-- 
2.43.0


From f168ffa811598a4bc02c9f5a94a57c2bc5663b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 43/53] fix: allow to write the characteristics of incremental
 predictions to CSV files

---
 .../testbed/mlrl/testbed/characteristics.py          |  2 +-
 .../testbed/mlrl/testbed/data_characteristics.py     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/characteristics.py b/python/subprojects/testbed/mlrl/testbed/characteristics.py
index 0d1668b..6a1dc58 100644
--- a/python/subprojects/testbed/mlrl/testbed/characteristics.py
+++ b/python/subprojects/testbed/mlrl/testbed/characteristics.py
@@ -173,7 +173,7 @@ class OutputCharacteristics(Formattable, Tabularizable):
         columns = {}
 
         for formatter in filter_formatters(self.formatters, [options]):
-            columns[formatter] = formatter.format(self, percentage=percentage, decimals=decimals)
+            columns[formatter.name] = formatter.format(self, percentage=percentage, decimals=decimals)
 
         return [columns]
 
diff --git a/python/subprojects/testbed/mlrl/testbed/data_characteristics.py b/python/subprojects/testbed/mlrl/testbed/data_characteristics.py
index 750a364..9e6e050 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_characteristics.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_characteristics.py
@@ -155,14 +155,14 @@ class DataCharacteristicsWriter(OutputWriter):
             columns = {}
 
             for formatter in filter_formatters(FEATURE_CHARACTERISTICS, [options]):
-                columns[formatter] = formatter.format(self.feature_characteristics,
-                                                      percentage=percentage,
-                                                      decimals=decimals)
+                columns[formatter.name] = formatter.format(self.feature_characteristics,
+                                                           percentage=percentage,
+                                                           decimals=decimals)
 
             for formatter in filter_formatters(self.output_formatters, [options]):
-                columns[formatter] = formatter.format(self.output_characteristics,
-                                                      percentage=percentage,
-                                                      decimals=decimals)
+                columns[formatter.name] = formatter.format(self.output_characteristics,
+                                                           percentage=percentage,
+                                                           decimals=decimals)
 
             return [columns]
 
-- 
2.43.0


From 9214bf848ea305e4a8e26c0aa1a804110c5dda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 44/53] fix: represent empty label vectors as arrays of
 integers

---
 .../common/mlrl/common/cython/output_space_info.pyx            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
index 6b870de..c860eb6 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
@@ -74,7 +74,8 @@ cdef class LabelVectorSet(OutputSpaceInfo):
 
     cdef __visit_label_vector(self, const LabelVector& label_vector, uint32 frequency):
         cdef uint32 num_elements = label_vector.getNumElements()
-        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
+        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [],
+                                   dtype=np.uint32)
         self.visitor.visit_label_vector(label_indices, frequency)
 
     cdef __serialize_label_vector(self, const LabelVector& label_vector, uint32 frequency):
-- 
2.43.0


From 840ff543628c1dd471cd61b39be2117284d5defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 45/53] fix: ensure that sparse predictions are of type uint8
 if no labels are predicted

---
 python/subprojects/common/mlrl/common/cython/prediction.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pyx b/python/subprojects/common/mlrl/common/cython/prediction.pyx
index 9e394ff..4081a99 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pyx
@@ -134,7 +134,7 @@ cdef class IncrementalSparseBinaryPredictor:
         cdef uint32 num_dense_elements = prediction_matrix_ptr.getNumDenseElements()
         cdef uint32* indices = prediction_matrix_ptr.getIndices()
         cdef uint32* indptr = prediction_matrix_ptr.getIndptr()
-        data = np.ones(shape=(num_dense_elements), dtype=np.uint8) if num_dense_elements > 0 else np.asarray([])
+        data = np.ones(shape=(num_dense_elements), dtype=np.uint8)
         pred_indices = np.array(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
         pred_indptr = np.array(view_uint32(indptr, num_rows + 1))
         return csr_array((data, pred_indices, pred_indptr), shape=(num_rows, num_cols))
@@ -161,7 +161,7 @@ cdef class SparseBinaryPredictor:
         cdef uint32 num_dense_elements = prediction_matrix_ptr.get().getNumDenseElements()
         cdef uint32* indices = prediction_matrix_ptr.get().releaseIndices()
         cdef uint32* indptr = prediction_matrix_ptr.get().releaseIndptr()
-        data = np.ones(shape=(num_dense_elements), dtype=np.uint8) if num_dense_elements > 0 else np.asarray([])
+        data = np.ones(shape=(num_dense_elements), dtype=np.uint8)
         pred_indices = np.asarray(array_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
         pred_indptr = np.asarray(array_uint32(indptr, num_rows + 1))
         return csr_array((data, pred_indices, pred_indptr), shape=(num_rows, num_cols))
-- 
2.43.0


From 047478d7d052822545ce477cbdab47d54441f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 46/53] fix: reject NaN if the value of a parameter must be
 within a certain range

---
 .../subprojects/common/mlrl/common/cython/validation.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/validation.py b/python/subprojects/common/mlrl/common/cython/validation.py
index 5bda176..939707a 100644
--- a/python/subprojects/common/mlrl/common/cython/validation.py
+++ b/python/subprojects/common/mlrl/common/cython/validation.py
@@ -11,7 +11,7 @@ def assert_greater(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value <= threshold:
+    if not value > threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be greater than ' + str(threshold)
                          + ', but is ' + str(value))
 
@@ -24,7 +24,7 @@ def assert_greater_or_equal(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value < threshold:
+    if not value >= threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be greater or equal to '
                          + str(threshold) + ', but is ' + str(value))
 
@@ -37,7 +37,7 @@ def assert_less(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value >= threshold:
+    if not value < threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be less than ' + str(threshold)
                          + ', but is ' + str(value))
 
@@ -50,7 +50,7 @@ def assert_less_or_equal(name: str, value, threshold):
     :param value:       The value
     :param threshold:   The threshold
     """
-    if value > threshold:
+    if not value <= threshold:
         raise ValueError('Invalid value given for parameter "' + name + '": Must be less or equal to ' + str(threshold)
                          + ', but is ' + str(value))
 
-- 
2.43.0


From 8a67944e936739f7e9407f6090db680d5aed76c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 47/53] fix: sort the indices of outputs that have been sampled
 without replacement

---
 .../common/sampling/output_sampling_without_replacement.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
index 8ff21b8..b513834 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/output_sampling_without_replacement.cpp
@@ -6,6 +6,8 @@
 #include "mlrl/common/util/math.hpp"
 #include "mlrl/common/util/validation.hpp"
 
+#include <algorithm>
+
 /**
  * Allows to select a subset of the available outputs without replacement.
  */
@@ -32,6 +34,8 @@ class OutputSamplingWithoutReplacement final : public IOutputSampling {
         const IIndexVector& sample() override {
             sampleIndicesWithoutReplacement<IndexIterator>(indexVector_.begin(), indexVector_.getNumElements(),
                                                            IndexIterator(numOutputs_), numOutputs_, *rngPtr_);
+            // The indices of outputs are required to be in increasing order...
+            std::sort(indexVector_.begin(), indexVector_.end());
             return indexVector_;
         }
 };
-- 
2.43.0


From c9b23305e2a56aeb1f62f751a7fe7633b536bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 48/53] fix: ensure that the automatic values of parameters
 that are specific to the BOOMER algorithm are effective

---
 python/subprojects/boosting/mlrl/boosting/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index cc27461..7da0f3b 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -479,7 +479,7 @@ class ProbabilityPredictorParameter(NominalParameter):
             config.use_automatic_probability_predictor()
 
 
-BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_CLASSIFIER_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -496,9 +496,9 @@ BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     JointProbabilityCalibrationParameter(),
     BinaryPredictorParameter(),
     ProbabilityPredictorParameter()
-}
+} | RULE_LEARNER_PARAMETERS
 
-BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_REGRESSOR_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -510,4 +510,4 @@ BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     StatisticFormatParameter(),
     RegressionLossParameter(),
     HeadTypeParameter()
-}
+} | RULE_LEARNER_PARAMETERS
-- 
2.43.0


From b517293adf35a1b1cdf056f8a86d5e9d406d1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 49/53] fix: allow to set the parameter "head_type" to its
 default value

---
 python/subprojects/boosting/mlrl/boosting/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index 7da0f3b..2c678b1 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -12,7 +12,8 @@ from mlrl.common.cython.learner import DefaultRuleMixin, NoJointProbabilityCalib
     NoMarginalProbabilityCalibrationMixin, NoPostProcessorMixin
 from mlrl.common.options import BooleanOption, Options
 
-from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticParallelRuleRefinementMixin, \
+from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticHeadMixin, \
+    AutomaticParallelRuleRefinementMixin, \
     AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, ConstantShrinkageMixin, \
     DecomposableSquaredErrorLossMixin, DynamicPartialHeadMixin, FixedPartialHeadMixin, L1RegularizationMixin, \
     L2RegularizationMixin, NoL1RegularizationMixin, NoL2RegularizationMixin, NonDecomposableSquaredErrorLossMixin, \
@@ -328,6 +329,9 @@ class HeadTypeParameter(NominalParameter):
                        mixin=DynamicPartialHeadMixin,
                        options={self.OPTION_THRESHOLD, self.OPTION_EXPONENT})
         self.add_value(name=self.HEAD_TYPE_COMPLETE, mixin=CompleteHeadMixin)
+        self.add_value(name=AUTOMATIC,
+                       mixin=AutomaticHeadMixin,
+                       description='If set to "' + AUTOMATIC + '", the most suitable type is chosen automatically')
 
     def _configure(self, config, value: str, options: Optional[Options]):
         if value == self.HEAD_TYPE_SINGLE:
-- 
2.43.0


From 5b8e7530411d90ae4a65aabc2eb81f82b92c20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:57 +0000
Subject: [PATCH 50/53] fix: take the parameter "random_state" into account
 when training a BOOMER regressor

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pxd       | 1 +
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx       | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
index 9c9c192..8032174 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
@@ -134,6 +134,7 @@ cdef extern from "mlrl/boosting/learner_boomer_classifier.hpp" namespace "boosti
 cdef extern from "mlrl/boosting/learner_boomer_regressor.hpp" namespace "boosting" nogil:
 
     cdef cppclass IBoomerRegressorConfig"boosting::IBoomerRegressor::IConfig"(
+        IRNGMixin,
         IAutomaticPartitionSamplingMixin,
         IAutomaticFeatureBinningMixin,
         IAutomaticParallelRuleRefinementMixin,
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 586c995..edc6c7f 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -576,6 +576,7 @@ cdef class BoomerClassifier(ClassificationRuleLearner):
 
 
 cdef class BoomerRegressorConfig(RuleLearnerConfig,
+                                 RNGMixin,
                                  AutomaticPartitionSamplingMixin,
                                  AutomaticFeatureBinningMixin,
                                  AutomaticParallelRuleRefinementMixin,
@@ -738,6 +739,12 @@ cdef class BoomerRegressorConfig(RuleLearnerConfig,
         config.config_ptr = config_ptr
         return config
 
+    def use_rng(self) -> RNGConfig:
+        cdef IRNGConfig* config_ptr = &self.config_ptr.get().useRNG()
+        cdef RNGConfig config = RNGConfig.__new__(RNGConfig)
+        config.config_ptr = config_ptr
+        return config
+
     def use_automatic_partition_sampling(self):
         self.config_ptr.get().useAutomaticPartitionSampling()
 
-- 
2.43.0


From d07cc1d127bd28d8f483e2877ea724846bc520be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 51/53] fix: reject zero as the interval after which
 pre-pruning may stop the induction of rules

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp       | 1 +
 .../subprojects/common/mlrl/common/cython/stopping_criterion.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index c803a22..014aa06 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -248,6 +248,7 @@ uint32 PrePruningConfig::getStopInterval() const {
 }
 
 IPrePruningConfig& PrePruningConfig::setStopInterval(uint32 stopInterval) {
+    util::assertGreaterOrEqual<uint32>("stopInterval", stopInterval, 1);
     util::assertMultiple<uint32>("stopInterval", stopInterval, updateInterval_);
     stopInterval_ = stopInterval;
     return *this;
diff --git a/python/subprojects/common/mlrl/common/cython/stopping_criterion.pyx b/python/subprojects/common/mlrl/common/cython/stopping_criterion.pyx
index 2265d48..7342900 100644
--- a/python/subprojects/common/mlrl/common/cython/stopping_criterion.pyx
+++ b/python/subprojects/common/mlrl/common/cython/stopping_criterion.pyx
@@ -204,6 +204,7 @@ cdef class PrePruningConfig:
                                 20, ... rules. Must be a multiple of the update interval
         :return:                A `PrePruningConfig` that allows further configuration of the stopping criterion
         """
+        assert_greater_or_equal('stop_interval', stop_interval, 1)
         assert_multiple('stop_interval', stop_interval, self.config_ptr.getUpdateInterval())
         self.config_ptr.setStopInterval(stop_interval)
         return self
-- 
2.43.0


From fab0656cc86b510c72bdd26a3918d951e275f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 52/53] fix: respect the minimum and maximum number of features
 if the sample size is computed automatically

---
 .../common/sampling/feature_sampling_without_replacement.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index 7fdc930..c416692 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -153,6 +153,11 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
     } else if (numRemainingFeatures > 1) {
         numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+        numSamples = std::max(numSamples, std::min(minSamples_, numRemainingFeatures));
+
+        if (maxSamples_ >= minSamples_) {
+            numSamples = std::min(numSamples, maxSamples_);
+        }
     } else {
         numSamples = numRemainingFeatures;
     }
-- 
2.43.0


From 69156545a29a1a67052c1106349ef38035618552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 53/53] fix: respect the minimum and maximum number of examples
 when using stratified sampling

---
 .../stratified_sampling_example_wise.cpp        | 17 +++++++++++++++++
 .../stratified_sampling_output_wise.cpp         | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_example_wise.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_example_wise.cpp
index d5fb5d3..1bce784 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_example_wise.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_example_wise.cpp
@@ -51,9 +51,17 @@ void ExampleWiseStratification<LabelMatrix, IndexIterator>::sampleWeights(BitWei
                                                                           uint32 maxSamples) const {
     uint32 numTotalSamples = util::calculateBoundedFraction(numTotal_, sampleSize, minSamples, maxSamples);
     uint32 numTotalOutOfSamples = numTotal_ - numTotalSamples;
+    uint32 minTotalSamples = std::min(minSamples, numTotal_);
+    uint32 maxTotalSamples = maxSamples >= minSamples ? std::min(maxSamples, numTotal_) : numTotal_;
+    uint32 numRemaining = numTotal_;
     uint32 numNonZeroWeights = 0;
     uint32 numZeroWeights = 0;
 
+    // If the number of samples is restricted, the percentage of examples to be drawn from each stratum must be adjusted...
+    if (numTotalSamples != util::calculateBoundedFraction(numTotal_, sampleSize, 0, numTotal_)) {
+        sampleSize = (float32) numTotalSamples / (float32) numTotal_;
+    }
+
     for (auto it = order_.begin(); it != order_.end(); it++) {
         const std::unique_ptr<std::vector<uint32>>& exampleIndicesPtr = *it;
         std::vector<uint32>::iterator indexIterator = exampleIndicesPtr->begin();
@@ -64,6 +72,15 @@ void ExampleWiseStratification<LabelMatrix, IndexIterator>::sampleWeights(BitWei
         uint32 numSamples = static_cast<uint32>(tiebreak(numDesiredSamples, numDesiredOutOfSamples, *rngPtr_)
                                                   ? std::ceil(numSamplesDecimal)
                                                   : std::floor(numSamplesDecimal));
+        numRemaining -= numExamples;
+
+        // Ensure that the minimum and maximum number of samples are respected...
+        if (numNonZeroWeights + numSamples > maxTotalSamples) {
+            numSamples = maxTotalSamples - numNonZeroWeights;
+        } else if (numNonZeroWeights + numSamples + numRemaining < minTotalSamples) {
+            numSamples = minTotalSamples - numNonZeroWeights - numRemaining;
+        }
+
         numNonZeroWeights += numSamples;
         numZeroWeights += (numExamples - numSamples);
 
diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp
index 446b272..54744e8 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/stratified_sampling_output_wise.cpp
@@ -383,9 +383,17 @@ void LabelWiseStratification<LabelMatrix, IndexIterator>::sampleWeights(BitWeigh
     uint32 numCols = stratificationMatrix_.getNumCols();
     uint32 numTotalSamples = util::calculateBoundedFraction(numRows, sampleSize, minSamples, maxSamples);
     uint32 numTotalOutOfSamples = numRows - numTotalSamples;
+    uint32 minTotalSamples = std::min(minSamples, numRows);
+    uint32 maxTotalSamples = maxSamples >= minSamples ? std::min(maxSamples, numRows) : numRows;
+    uint32 numRemaining = numRows;
     uint32 numNonZeroWeights = 0;
     uint32 numZeroWeights = 0;
 
+    // If the number of samples is restricted, the percentage of examples to be drawn from each stratum must be adjusted...
+    if (numTotalSamples != util::calculateBoundedFraction(numRows, sampleSize, 0, numRows)) {
+        sampleSize = (float32) numTotalSamples / (float32) numRows;
+    }
+
     // For each column, assign a weight to the corresponding examples...
     for (uint32 i = 0; i < numCols; i++) {
         auto exampleIndices = stratificationMatrix_.indices_begin(i);
@@ -396,6 +404,15 @@ void LabelWiseStratification<LabelMatrix, IndexIterator>::sampleWeights(BitWeigh
         uint32 numSamples = static_cast<uint32>(tiebreak(numDesiredSamples, numDesiredOutOfSamples, *rngPtr_)
                                                   ? std::ceil(numSamplesDecimal)
                                                   : std::floor(numSamplesDecimal));
+        numRemaining -= numExamples;
+
+        // Ensure that the minimum and maximum number of samples are respected...
+        if (numNonZeroWeights + numSamples > maxTotalSamples) {
+            numSamples = maxTotalSamples - numNonZeroWeights;
+        } else if (numNonZeroWeights + numSamples + numRemaining < minTotalSamples) {
+            numSamples = minTotalSamples - numNonZeroWeights - numRemaining;
+        }
+
         numNonZeroWeights += numSamples;
         numZeroWeights += (numExamples - numSamples);
         uint32 j;
-- 
2.43.0

