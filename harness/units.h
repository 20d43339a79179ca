// Strokes and parameters in other units of distance and time, turned and shifted.
#ifndef VERIF_UNITS_H_
#define VERIF_UNITS_H_

#include "common.h"

namespace vx {

struct Units {
  std::string name;
  float d = 1;                        // distance
  double t = 1;                       // time
  double shift = 0;                   // of time, in the original unit
  int xx = 1, xy = 0, yx = 0, yy = 1; // axes
  // Along the stroke normal, a projection exactly between two candidates takes
  // the one on a fixed side of the stroke, so reflections are excluded there.
  bool Reflects() const { return xx * yy - xy * yx < 0; }
  Vec2 Dir(Vec2 v) const { return {v.x * xx + v.y * xy, v.x * yx + v.y * yy}; }
};
inline Vec2 Mul(Vec2 v, double s) { return {(float)(v.x * s), (float)(v.y * s)}; }

inline std::vector<Units> AllUnits() {
  std::vector<Units> v;
  auto add = [&](const char* n, float d, double t, double shift, int xx, int xy, int yx, int yy) {
    Units u;
    u.name = n; u.d = d; u.t = t; u.shift = shift; u.xx = xx; u.xy = xy; u.yx = yx; u.yy = yy;
    v.push_back(u);
  };
  add("distance*1024", 1024, 1, 0, 1, 0, 0, 1);
  add("distance/4096", 1 / 4096.f, 1, 0, 1, 0, 0, 1);
  add("time*1024", 1, 1024, 0, 1, 0, 0, 1);
  add("time/256", 1, 1 / 256., 0, 1, 0, 0, 1);
  add("both", 2, 8, 0, 1, 0, 0, 1);
  add("distance*2^30", 1 << 30, 1, 0, 1, 0, 0, 1);
  add("distance/2^30", 1.f / (1 << 30), 1, 0, 1, 0, 0, 1);
  add("time*2^16", 1, 1 << 16, 0, 1, 0, 0, 1);
  add("time/2^20", 1, 1. / (1 << 20), 0, 1, 0, 0, 1);
  add("time+256", 1, 1, 256, 1, 0, 0, 1);
  add("time-64", 1, 1, -64, 1, 0, 0, 1);
  add("time to 0", 1, 1, -4, 1, 0, 0, 1);
  add("quarter turn", 1, 1, 0, 0, -1, 1, 0);
  add("half turn", 1, 1, 0, -1, 0, 0, -1);
  add("three quarter turn", 1, 1, 0, 0, 1, -1, 0);
  add("swapped axes", 1, 1, 0, 0, 1, 1, 0);
  add("mirrored", 1, 1, 0, -1, 0, 0, 1);
  add("everything", 4, .5, 16, 0, -1, 1, 0);
  return v;
}
constexpr int kUnits = 18;

inline StrokeModelParams Convert(StrokeModelParams p, const Units& u) {
  double speed = u.d / u.t;
  auto& w = p.wobble_smoother_params;
  w.timeout = Duration(w.timeout.Value() * u.t);
  w.speed_floor *= speed;
  w.speed_ceiling *= speed;
  auto& m = p.position_modeler_params;
  m.spring_mass_constant *= u.t * u.t;
  m.drag_constant /= u.t;
  auto& l = m.loop_contraction_mitigation_params;
  l.speed_lower_bound *= speed;
  l.speed_upper_bound *= speed;
  l.min_speed_sampling_window = Duration(l.min_speed_sampling_window.Value() * u.t);
  auto& s = p.sampling_params;
  s.min_output_rate /= u.t;
  s.end_of_stroke_stopping_distance *= u.d;
  p.stylus_state_modeler_params.min_sample_duration = Duration(p.stylus_state_modeler_params.min_sample_duration.Value() * u.t);
  if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    // The variances stay as they are; the filter is linear in the positions.
    k->min_catchup_velocity *= speed;
    k->prediction_interval = Duration(k->prediction_interval.Value() * u.t);
    auto& c = k->confidence_params;
    c.max_estimation_distance *= u.d;
    c.min_travel_speed *= speed;
    c.max_travel_speed *= speed;
    c.max_linear_deviation *= u.d;
  }
  return p;
}
inline Input Convert(Input in, const Units& u) {
  in.position = Mul(u.Dir(in.position), u.d);
  in.time = Time((in.time.Value() + u.shift) * u.t);
  return in;
}
inline Result Convert(Result r, const Units& u) {
  r.position = Mul(u.Dir(r.position), u.d);
  r.velocity = Mul(u.Dir(r.velocity), u.d / u.t);
  r.acceleration = Mul(u.Dir(r.acceleration), u.d / u.t / u.t);
  r.time = Time((r.time.Value() + u.shift) * u.t);
  return r;
}

}  // namespace vx

#endif  // VERIF_UNITS_H_
