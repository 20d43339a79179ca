// The numeric parameters, for enumerating their values.
#ifndef VERIF_FIELDS_H_
#define VERIF_FIELDS_H_

#include "common.h"

namespace vx {

using SS = StrokeModelParams;

struct Field {
  const char* name;
  char group;  // w, p, l, s, y, k
  char type;   // f, d, i
  std::function<void(SS&, double)> set;
};
inline KalmanPredictorParams& K(SS& p) { return std::get<KalmanPredictorParams>(p.prediction_params); }

inline const std::vector<Field>& Fields() {
#define F(group, type, path) {#path, group, type, [](SS& p, double v) { path = (decltype(path))(v); }}
#define D(group, path) {#path, group, 'd', [](SS& p, double v) { path = Duration(v); }}
#define KF(type, path) {#path, 'k', type, [](SS& p, double v) { \
    if (std::holds_alternative<KalmanPredictorParams>(p.prediction_params)) K(p).path = (decltype(KalmanPredictorParams().path))(v); }}
  static const std::vector<Field> f = {
      D('w', p.wobble_smoother_params.timeout),
      F('w', 'f', p.wobble_smoother_params.speed_floor),
      F('w', 'f', p.wobble_smoother_params.speed_ceiling),
      F('p', 'f', p.position_modeler_params.spring_mass_constant),
      F('p', 'f', p.position_modeler_params.drag_constant),
      F('l', 'f', p.position_modeler_params.loop_contraction_mitigation_params.speed_lower_bound),
      F('l', 'f', p.position_modeler_params.loop_contraction_mitigation_params.speed_upper_bound),
      F('l', 'f', p.position_modeler_params.loop_contraction_mitigation_params.interpolation_strength_at_speed_lower_bound),
      F('l', 'f', p.position_modeler_params.loop_contraction_mitigation_params.interpolation_strength_at_speed_upper_bound),
      D('l', p.position_modeler_params.loop_contraction_mitigation_params.min_speed_sampling_window),
      F('l', 'i', p.position_modeler_params.loop_contraction_mitigation_params.min_discrete_speed_samples),
      F('s', 'd', p.sampling_params.min_output_rate),
      F('s', 'f', p.sampling_params.end_of_stroke_stopping_distance),
      F('s', 'i', p.sampling_params.end_of_stroke_max_iterations),
      F('s', 'i', p.sampling_params.max_outputs_per_call),
      F('s', 'd', p.sampling_params.max_estimated_angle_to_traverse_per_input),
      F('y', 'i', p.stylus_state_modeler_params.max_input_samples),
      F('y', 'i', p.stylus_state_modeler_params.min_input_samples),
      D('y', p.stylus_state_modeler_params.min_sample_duration),
      KF('d', process_noise),
      KF('d', measurement_noise),
      KF('i', min_stable_iteration),
      KF('i', max_time_samples),
      KF('f', min_catchup_velocity),
      KF('f', acceleration_weight),
      KF('f', jerk_weight),
      {"prediction_interval", 'k', 'd', [](SS& p, double v) {
         if (std::holds_alternative<KalmanPredictorParams>(p.prediction_params)) K(p).prediction_interval = Duration(v); }},
      KF('i', confidence_params.desired_number_of_samples),
      KF('f', confidence_params.max_estimation_distance),
      KF('f', confidence_params.min_travel_speed),
      KF('f', confidence_params.max_travel_speed),
      KF('f', confidence_params.max_linear_deviation),
      KF('f', confidence_params.baseline_linearity_confidence),
  };
#undef F
#undef D
#undef KF
  return f;
}
}  // namespace vx

#endif  // VERIF_FIELDS_H_
