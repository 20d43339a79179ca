// Parameter sets that differ from one of two bases in one parameter: each of the
// parameters, with a low, a middle and a high value; and some with everything large.
#ifndef VERIF_VARIANTS_H_
#define VERIF_VARIANTS_H_

#include "script.h"

namespace vx {

inline std::vector<Config> Variants() {
  std::vector<Config> v;
  static const double kLow[] = {0, 0, 4, 3e-4, 8, 0, 1, 0, .1, 0, 1, 20, 1e-6, 1, 4, -1,
                                1, 1, 0, 1e-6, 1e-3, 1, 2, .01, 0, 0, .005, 1, .01, 0, .5, .01, 0};
  static const double kHigh[] = {2, 10, 100, .01, 200, 50, 1000, .9, 1, 3, 60, 700, .5, 1000, 100000, 3,
                                 50, 60, 2, .2, 4, 30, 50, 1000, 1, 1, .3, 60, 100, 5, 5000, 100, 1};
  static_assert(sizeof kLow == sizeof kHigh && sizeof kLow / sizeof *kLow == 33);
  const auto& f = Fields();
  for (int base = 0; base < 3; ++base) {
    std::vector<Config> one = OneFieldVariants(base);
    for (auto& c : one) v.push_back(c);
    if (base) continue;
    for (auto* values : {kLow, kHigh})
      for (size_t i = 0; i < f.size(); ++i) {
        Config c = one[0];
        c.name = std::string(f[i].name) + (values == kLow ? " low" : " high");
        f[i].set(c.p, values[i]);
        v.push_back(c);
      }
  }
  for (int k = 0; k < 3; ++k) {
    StrokeModelParams p = BaseParams();
    if (k != 1) EnableLoopMitigation(p);
    if (k != 1) p.position_modeler_params.loop_contraction_mitigation_params.min_discrete_speed_samples = 300;
    p.wobble_smoother_params.timeout = Duration(1.5);
    p.position_modeler_params.drag_constant = 15;  // hardly damped
    p.sampling_params.max_outputs_per_call = 3000;
    p.sampling_params.end_of_stroke_max_iterations = 1000;
    p.sampling_params.end_of_stroke_stopping_distance = 1e-5f;
    p.stylus_state_modeler_params.max_input_samples = 100;
    if (k == 2) {
      KalmanPredictorParams kp = BaseKalman();
      kp.max_time_samples = 100;
      kp.prediction_interval = Duration(.5);
      kp.confidence_params.desired_number_of_samples = 30;
      kp.confidence_params.max_estimation_distance = 50;
      p.prediction_params = kp;
    }
    v.push_back({"all large", p});
  }
  // Limits that cut short the end of a stroke and a prediction.
  for (int limit : {3, 6, 10, 17})
    for (int k = 0; k < 2; ++k) {
      StrokeModelParams p = BaseParams();
      p.sampling_params.max_outputs_per_call = limit;
      if (k) p.prediction_params = BaseKalman();
      v.push_back({"tight limit", p});
    }
  std::vector<Config> ok;
  for (auto& c : v)
    if (StrokeModeler().Reset(c.p).ok()) ok.push_back(c);
  return ok;
}

#define VX_VARIANTS_TEXT(n) ("each of " + std::to_string(n) + " parameter sets that differ from a base in one parameter (low, middle, high) or are large throughout, or have any combination of stages")

}  // namespace vx

#endif  // VERIF_VARIANTS_H_
