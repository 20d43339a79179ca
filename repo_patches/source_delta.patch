From cc92af1a15d9265ee86402ddf70722f6d771a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 1/8] fix: do not let a rejected kMove change the modeler's
 state

A kMove whose number of steps could not be computed (too far apart in time,
or enormous) was rejected only after it had been fed to the wobble smoother
and the stylus state modeler, so the rest of the stroke was modeled as though
the rejected input had been part of it.
---
 ink_stroke_modeler/stroke_modeler.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..251006b 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,16 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  // This may reject the input, so it must come before any of the sub-modelers
+  // are updated.
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +303,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From 5990e76aaffa3af8368c010854d347f1973fa300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 2/8] fix: do not restore a predictor saved before prediction
 was disabled

Save() kept the previously saved predictor when there was no current one, so
Save() followed by Restore() after a Reset() to DisabledPredictorParams
brought back the predictor, parameters and state, of an earlier stroke.
---
 ink_stroke_modeler/stroke_modeler.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 251006b..8d2c31f 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -326,9 +326,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
-- 
2.43.0


From b2bca79754fadedb0d0c62126104b6267cbe57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 3/8] fix: make Restore() do nothing when the save belongs to
 an earlier stroke

A kDown discards the saved states of the sub-modelers but left the modeler's
own save active, so Restore() in the new stroke put back only the last input
and the predictor of the earlier stroke, combining the states of both.
---
 ink_stroke_modeler/stroke_modeler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 8d2c31f..d7b5f0c 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -204,6 +204,9 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
   loop_contraction_mitigation_modeler_.Reset(
       stroke_model_params_->position_modeler_params
           .loop_contraction_mitigation_params);
+  // Resetting the sub-modelers discarded their saved states, which belong to the
+  // previous stroke.
+  save_active_ = false;
 
   stylus_state_modeler_.Update(input.position, input.time,
                                {.pressure = input.pressure,
-- 
2.43.0


From 6f3e34548812f6aff386697baeee3d64aeb531bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 4/8] fix: do not predict from a non-finite Kalman estimate

When all of the retained input times are equal (always the case if
max_time_samples is 1) the average time delta is zero, and Predict() returned
results with NaN positions.
---
 .../internal/prediction/kalman_predictor.cc               | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..b47a2b9 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -103,6 +103,14 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
   estimated_state.acceleration *= predictor_params_.acceleration_weight;
   estimated_state.jerk *= predictor_params_.jerk_weight;
 
+  // If (almost) no time has passed between the inputs, then there is no
+  // meaningful rate of change to estimate.
+  if (!estimated_state.velocity.IsFinite() ||
+      !estimated_state.acceleration.IsFinite() ||
+      !estimated_state.jerk.IsFinite()) {
+    return std::nullopt;
+  }
+
   return estimated_state;
 }
 
-- 
2.43.0


From 83613c09d5f04342cacdfa383a329d63c1ca7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 5/8] fix: terminate when interpolating very large orientations
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Input::orientation is not range-checked, and an infinite value, or one large
enough that subtracting 2π leaves it unchanged, made Update() hang.
---
 ink_stroke_modeler/internal/utils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..a19f028 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,8 +67,11 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
-    while (angle < 0) angle += 2 * kPi;
-    while (angle > 2 * kPi) angle -= 2 * kPi;
+    // Repeatedly adding or subtracting 2π would not terminate for angles so
+    // large that doing so does not change their value.
+    angle = std::fmod(angle, 2 * kPi);
+    if (angle < 0) angle += 2 * kPi;
+    if (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
   };
 
-- 
2.43.0


From 1a34e139c90be8a58452fd15e0e49f885772c3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 6/8] fix: reject NaN in the parameters that are only
 range-checked

The bounds of the loop contraction mitigation parameters and of
baseline_linearity_confidence are checked with comparisons that NaN passes, so
Reset() accepted NaN and the results became NaN.
---
 ink_stroke_modeler/params.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..c0dc796 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,6 +48,23 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_lower_bound,
+      "LoopContractionMitigationParameters::speed_lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_upper_bound,
+      "LoopContractionMitigationParameters::speed_upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_lower_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_upper_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.min_speed_sampling_window.Value(),
+      "LoopContractionMitigationParameters::min_speed_sampling_window"));
   if (params.speed_lower_bound > params.speed_upper_bound ||
       params.speed_lower_bound < 0) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -223,6 +240,10 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      confidence_params.baseline_linearity_confidence,
+      "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
+      "confidence"));
   if (confidence_params.baseline_linearity_confidence < 0 ||
       confidence_params.baseline_linearity_confidence > 1) {
     return absl::InvalidArgumentError(absl::Substitute(
-- 
2.43.0


From b53887706eaa051befe1768b43a51c4f13666f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:43 +0000
Subject: [PATCH 7/8] fix: produce a result for a kMove with the previous
 input's timestamp

Update() promises at least one Result for every accepted input, but produced
none for a kMove that changes only position or stylus state.
---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index d7b5f0c..f9bf2a2 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -313,6 +313,12 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
       corrected_position, input.time, *n_steps,
       std::back_inserter(tip_state_buffer_));
 
+  if (tip_state_buffer_.empty()) {
+    // If we haven't generated any new states, add the current state. This can
+    // happen if the TMove has the same timestamp as the previous input.
+    tip_state_buffer_.push_back(position_modeler_.CurrentState());
+  }
+
   if (predictor_ != nullptr) {
     predictor_->Update(corrected_position, input.time);
   }
-- 
2.43.0


From 50b289532cacd6d4c5baf14ac7c9862161b0c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 8/8] fix: limit the outputs of kUp and Predict to
 max_outputs_per_call

max_outputs_per_call is the limit for a call to Update() or Predict(), but the
end-of-stroke samples of a kUp and the samples of both predictors were not
counted against it; the Kalman predictor could also overflow an int (or run out
of memory) when the tip was slow and far from the estimate.
---
 .../internal/prediction/kalman_predictor.cc   | 26 +++++++++++++------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 .../prediction/stroke_end_predictor.cc        |  8 ++++--
 ink_stroke_modeler/stroke_modeler.cc          | 12 ++++++---
 4 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index b47a2b9..62b0990 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -125,11 +125,16 @@ void KalmanPredictor::ConstructPrediction(
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, sampling_params_.max_outputs_per_call,
+                          &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
+  const int max_points_to_predict = sampling_params_.max_outputs_per_call -
+                                    static_cast<int>(prediction.size());
   ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
+                           sample_dt,
+                           std::min(NumberOfPointsToPredict(*estimated_state),
+                                    max_points_to_predict),
                            &prediction);
 }
 
@@ -154,7 +159,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_points,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -169,10 +174,13 @@ void KalmanPredictor::ConstructCubicConnector(
       std::max(max_velocity_at_ends, params.min_catchup_velocity)};
 
   // Determine how many samples this will give us, ensuring that there's always
-  // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  // at least one and at most `max_points`. Then, pick a duration that's a
+  // multiple of the sample dt.
+  int n_points =
+      std::fmin(std::fmax(std::ceil(static_cast<float>(
+                              target_duration.Value() / sample_dt.Value())),
+                          1.f),
+                static_cast<double>(max_points));
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -287,7 +295,9 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  return std::fmin(
+      std::fmax(0.f, std::ceil(target_number * confidence)),
+      static_cast<double>(sampling_params_.max_outputs_per_call));
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..729b6a8 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_points,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
diff --git a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
index aedde93..fc384e1 100644
--- a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
 
+#include <algorithm>
 #include <iterator>
 #include <optional>
 #include <vector>
@@ -37,12 +38,15 @@ void StrokeEndPredictor::ConstructPrediction(
     return;
   }
 
-  prediction.reserve(sampling_params_.end_of_stroke_max_iterations);
+  const int max_iterations =
+      std::min(sampling_params_.end_of_stroke_max_iterations,
+               sampling_params_.max_outputs_per_call);
+  prediction.reserve(max_iterations);
   PositionModeler modeler;
   modeler.Reset(last_state, position_modeler_params_);
   modeler.ModelEndOfStroke(*last_position_,
                            Duration(1. / sampling_params_.min_output_rate),
-                           sampling_params_.end_of_stroke_max_iterations,
+                           max_iterations,
                            sampling_params_.end_of_stroke_stopping_distance,
                            std::back_inserter(prediction));
 }
diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index f9bf2a2..5f4ceb4 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/stroke_modeler.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
@@ -246,10 +247,13 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   if (!n_steps.ok()) {
     return n_steps.status();
   }
+  // NumberOfStepsBetweenInputs() returns at most max_outputs_per_call steps.
+  const int end_of_stroke_max_iterations = std::min(
+      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      stroke_model_params_->sampling_params.max_outputs_per_call - *n_steps);
   tip_state_buffer_.clear();
-  tip_state_buffer_.reserve(
-      static_cast<size_t>(*n_steps) +
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations);
+  tip_state_buffer_.reserve(static_cast<size_t>(*n_steps) +
+                            end_of_stroke_max_iterations);
   position_modeler_.UpdateAlongLinearPath(
       last_input_->corrected_position, last_input_->input.time, input.position,
       input.time, *n_steps, std::back_inserter(tip_state_buffer_));
@@ -257,7 +261,7 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   position_modeler_.ModelEndOfStroke(
       input.position,
       Duration(1. / stroke_model_params_->sampling_params.min_output_rate),
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      end_of_stroke_max_iterations,
       stroke_model_params_->sampling_params.end_of_stroke_stopping_distance,
       std::back_inserter(tip_state_buffer_));
 
-- 
2.43.0

