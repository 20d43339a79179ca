// Shared by all checks: inputs, strokes, configurations, comparison, printing.
// Uses nothing but the public API of the library.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_

#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "explore.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"

namespace vx {

namespace sm = ink::stroke_model;
using sm::Duration;
using sm::Input;
using sm::KalmanPredictorParams;
using sm::Result;
using sm::StrokeModeler;
using sm::StrokeModelParams;
using sm::Time;
using sm::Vec2;
using ET = Input::EventType;
using Results = std::vector<Result>;
using Stroke = std::vector<Input>;

constexpr float kNaN = std::numeric_limits<float>::quiet_NaN();
constexpr float kInf = std::numeric_limits<float>::infinity();
constexpr double kDNaN = std::numeric_limits<double>::quiet_NaN();
constexpr double kDInf = std::numeric_limits<double>::infinity();
constexpr double kPiD = 3.14159265358979323846;

// ---------------------------------------------------------------- comparison

inline bool SameF(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool SameV(Vec2 a, Vec2 b) { return SameF(a.x, b.x) && SameF(a.y, b.y); }
inline bool SameResult(const Result& a, const Result& b) {
  return SameV(a.position, b.position) && SameV(a.velocity, b.velocity) &&
         SameV(a.acceleration, b.acceleration) &&
         SameF(a.time.Value(), b.time.Value()) && SameF(a.pressure, b.pressure) &&
         SameF(a.tilt, b.tilt) && SameF(a.orientation, b.orientation);
}
inline uint64_t HashF(uint64_t h, double d) {
  if (d == 0) d = 0;  // -0
  if (std::isnan(d)) d = kDNaN;
  uint64_t u;
  memcpy(&u, &d, 8);
  return Mix(h, u);
}
inline uint64_t HashResult(uint64_t h, const Result& r) {
  for (double d : {(double)r.position.x, (double)r.position.y,
                   (double)r.velocity.x, (double)r.velocity.y,
                   (double)r.acceleration.x, (double)r.acceleration.y,
                   r.time.Value(), (double)r.pressure, (double)r.tilt,
                   (double)r.orientation})
    h = HashF(h, d);
  return h;
}
inline uint64_t HashResults(const Results& v, size_t from = 0) {
  uint64_t h = 0x1234 + v.size() - from;
  for (size_t i = from; i < v.size(); ++i) h = HashResult(h, v[i]);
  return h;
}
inline uint64_t HashInput(uint64_t h, const Input& i) {
  h = Mix(h, (uint64_t)(int)i.event_type);
  for (double d : {(double)i.position.x, (double)i.position.y, i.time.Value(),
                   (double)i.pressure, (double)i.tilt, (double)i.orientation})
    h = HashF(h, d);
  return h;
}

// ------------------------------------------------------------------ printing

inline std::string Str(const Input& i) {
  char b[256];
  const char* t = i.event_type == ET::kDown   ? "Down"
                  : i.event_type == ET::kMove ? "Move"
                  : i.event_type == ET::kUp   ? "Up"
                                              : "?";
  snprintf(b, sizeof b, "%s(pos=(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g or=%.9g)", t,
           i.position.x, i.position.y, i.time.Value(), i.pressure, i.tilt,
           i.orientation);
  return b;
}
inline std::string Str(const Result& r) {
  char b[400];
  snprintf(b, sizeof b,
           "{pos=(%.9g,%.9g) vel=(%.9g,%.9g) acc=(%.9g,%.9g) t=%.17g p=%.9g "
           "tilt=%.9g or=%.9g}",
           r.position.x, r.position.y, r.velocity.x, r.velocity.y,
           r.acceleration.x, r.acceleration.y, r.time.Value(), r.pressure, r.tilt,
           r.orientation);
  return b;
}
inline std::string Str(const absl::Status& s) {
  return s.ok() ? "OK" : std::string(s.ToString());
}

inline Result Sentinel(int k) {
  Result r;
  r.position = {1000.f + k, -2000.f - k};
  r.velocity = {kNaN, 3.f * k};
  r.acceleration = {-7.f, 1e30f};
  r.time = Time(k % 2 ? 1e6 + k : -123.5 - k);  // earlier and later than the inputs
  r.pressure = 5;
  r.tilt = -3;
  r.orientation = 99;
  return r;
}

// ------------------------------------------------------------------- configs

inline KalmanPredictorParams BaseKalman() {
  KalmanPredictorParams k;
  k.process_noise = .00026458;
  k.measurement_noise = .026458;
  k.min_stable_iteration = 4;
  k.max_time_samples = 20;
  k.min_catchup_velocity = .01f;
  k.acceleration_weight = .5f;
  k.jerk_weight = .1f;
  k.prediction_interval = Duration(.1);
  k.confidence_params.desired_number_of_samples = 20;
  k.confidence_params.max_estimation_distance = .4f;
  k.confidence_params.min_travel_speed = .1f;
  k.confidence_params.max_travel_speed = 5.f;
  k.confidence_params.max_linear_deviation = 2.f;
  k.confidence_params.baseline_linearity_confidence = .4f;
  return k;
}

inline StrokeModelParams BaseParams() {
  StrokeModelParams p;
  p.wobble_smoother_params.is_enabled = true;
  p.wobble_smoother_params.timeout = Duration(.04);
  p.wobble_smoother_params.speed_floor = 1.31f;
  p.wobble_smoother_params.speed_ceiling = 40.f;
  p.position_modeler_params.spring_mass_constant = 11.f / 32400;
  p.position_modeler_params.drag_constant = 72.f;
  p.sampling_params.min_output_rate = 180;
  p.sampling_params.end_of_stroke_stopping_distance = .001f;
  p.sampling_params.end_of_stroke_max_iterations = 20;
  p.sampling_params.max_outputs_per_call = 100;
  p.stylus_state_modeler_params.max_input_samples = 10;
  p.prediction_params = sm::StrokeEndPredictorParams{};
  return p;
}

inline void EnableLoopMitigation(StrokeModelParams& p) {
  p.stylus_state_modeler_params.use_stroke_normal_projection = true;
  p.stylus_state_modeler_params.min_input_samples = 5;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.05);
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.is_enabled = true;
  l.speed_lower_bound = 2;
  l.speed_upper_bound = 60;
  l.interpolation_strength_at_speed_lower_bound = .9f;
  l.interpolation_strength_at_speed_upper_bound = .2f;
  l.min_speed_sampling_window = Duration(.03);
  l.min_discrete_speed_samples = 3;
}

struct Config {
  std::string name;
  StrokeModelParams p;
};

// The combinations of modeling stages used by the history checks.
inline std::vector<Config> StageConfigs() {
  std::vector<Config> v;
  StrokeModelParams p = BaseParams();
  v.push_back({"wobble+strokeend", p});
  p = BaseParams();
  p.prediction_params = BaseKalman();
  v.push_back({"wobble+kalman", p});
  p = BaseParams();
  EnableLoopMitigation(p);
  p.prediction_params = BaseKalman();
  p.sampling_params.max_estimated_angle_to_traverse_per_input = .3;
  v.push_back({"wobble+loop+kalman+angle", p});
  p = BaseParams();
  EnableLoopMitigation(p);
  v.push_back({"wobble+loop+strokeend", p});
  p = BaseParams();
  p.wobble_smoother_params.is_enabled = false;
  p.prediction_params = sm::DisabledPredictorParams{};
  v.push_back({"plain+nopredict", p});
  p = BaseParams();  // very small windows
  p.wobble_smoother_params.timeout = Duration(.015);
  p.stylus_state_modeler_params.max_input_samples = 2;
  KalmanPredictorParams k = BaseKalman();
  k.min_stable_iteration = 2;
  k.max_time_samples = 3;
  k.confidence_params.desired_number_of_samples = 3;
  p.prediction_params = k;
  v.push_back({"smallwindows+kalman", p});
  return v;
}

// All combinations of modeling stages: smoothing on or off, three kinds of
// prediction, turning-angle limit on or off, and projection to the closest point,
// along the normal, or along the normal with loop mitigation.
inline std::vector<Config> AllStages() {
  std::vector<Config> v;
  for (int k = 0; k < 36; ++k) {
    StrokeModelParams p = BaseParams();
    int predictor = k / 2 % 3, projection = k / 12;
    std::string n = "stages:";
    if (k % 2) p.wobble_smoother_params.is_enabled = false;
    else n += " wobble";
    if (predictor == 0) n += " stroke-end";
    if (predictor == 1) n += " kalman", p.prediction_params = BaseKalman();
    if (predictor == 2) p.prediction_params = sm::DisabledPredictorParams{};
    if (k / 6 % 2) n += " angle", p.sampling_params.max_estimated_angle_to_traverse_per_input = .3;
    if (projection) n += " normal", EnableLoopMitigation(p);
    if (projection == 1) p.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
    if (projection == 2) n += " loop";
    v.push_back({n, p});
  }
  return v;
}
constexpr int kAllStages = 36;

// ------------------------------------------------------------------- strokes

inline Input In(ET e, float x, float y, double t, float pr = -1, float ti = -1,
                float orr = -1) {
  Input i;
  i.event_type = e;
  i.position = {x, y};
  i.time = Time(t);
  i.pressure = pr;
  i.tilt = ti;
  i.orientation = orr;
  return i;
}

enum Shape { kLine, kZigzag, kLoop, kSpiral, kPauses, kJumps, kWiggle, kRests, kNumShapes };
enum Timing { kDyadic, kGeneric, kIrregular, kBursts, kGaps, kStacks, kNumTimings };
enum Stylus { kAllKnown, kPressureLost, kAllUnknown, kNaNTilt, kWrapOrient, kOrientLost, kNumStylus };

inline const char* ShapeName(int s) {
  static const char* n[] = {"line", "zigzag", "loop", "spiral", "pauses", "jumps", "wiggle", "rests"};
  return n[s];
}
inline const char* TimingName(int s) {
  static const char* n[] = {"dyadic", "generic", "irregular", "bursts", "gaps", "stacks"};
  return n[s];
}
inline const char* StylusName(int s) {
  static const char* n[] = {"known", "pressurelost", "unknown", "nantilt", "wraporient", "orientlost"};
  return n[s];
}

inline Vec2 ShapePoint(int shape, int i) {
  switch (shape) {
    case kLine:
      return {1.f + .31f * i, 2.f - .17f * i};
    case kZigzag:
      return {.5f * i, (i % 4 < 2) ? 1.f * (i % 4) : 1.f * (4 - i % 4)};
    case kLoop:
      return {(float)(2 * std::cos(.55 * i)), (float)(2 * std::sin(.55 * i) - .02 * i)};
    case kSpiral:
      return {(float)((.2 + .09 * i) * std::cos(.4 * i)),
              (float)((.2 + .09 * i) * std::sin(.4 * i))};
    case kPauses: {  // moves, and stays for three inputs in between
      int k = i / 5 * 2 + std::min(i % 5, 2);
      return {.4f * k, -.25f * k * (k % 3)};
    }
    case kJumps:
      return {(i * 7 % 11) * .9f - 4, (i * 5 % 13) * .7f - 4};
    case kRests: {  // rests at the beginning, then for three inputs at each point
      int k = i < 4 ? 0 : (i - 1) / 3;
      return {2.f + .7f * k, .4f * (k * k % 5) - 1};
    }
    default:  // slow with quantization noise
      return {3.f + .02f * i + ((i * 3 % 4) - 1.5f) * .01f,
              -1.f - .013f * i + ((i * 5 % 3) - 1) * .012f};
  }
}
inline double TimingPoint(int timing, int i) {
  switch (timing) {
    case kDyadic:
      return 4 + i / 128.;
    case kGeneric:
      return 1.1 + i * .0073;
    case kIrregular:
      return .3 + i * .006 + (i * 7 % 5) * .0011;
    case kBursts:  // pairs of inputs with the same timestamp
      return 2.7 + (i / 2) * .0113;
    case kGaps:  // a long gap after every sixth input
      return 7.9 + i * .0061 + (i / 6) * .127;
    default:  // of every eleven inputs the first five have the same timestamp
      return 5.3 + (i / 11) * .059 + std::max(0, i % 11 - 4) * .0079;
  }
}
inline void SetStylus(int stylus, int i, Input& in) {
  in.pressure = .3f + .02f * (i * 7 % 19);
  in.tilt = .2f + .05f * (i * 5 % 17);
  in.orientation = .4f + .29f * (i * 3 % 20);
  switch (stylus) {
    case kPressureLost:
      if (i >= 5 && i % 3 == 2) in.pressure = -1;
      break;
    case kAllUnknown:
      in.pressure = in.tilt = in.orientation = -1;
      break;
    case kNaNTilt:
      if (i == 7) in.tilt = kNaN;
      break;
    case kWrapOrient:
      in.orientation = i % 2 ? 6.1f : .15f * (i % 5);
      in.pressure *= 5;  // some of them greater than 1
      in.tilt *= 3;
      break;
    case kOrientLost:
      if (i == 9) in.orientation = -.5f;
      break;
    default:
      break;
  }
}

// Inputs 0 (the Down) to n-1 (the Up).
inline Stroke MakeStroke(int shape, int timing, int stylus, int n) {
  Stroke s;
  for (int i = 0; i < n; ++i) {
    Vec2 p = ShapePoint(shape, i);
    Input in = In(i == 0 ? ET::kDown : i == n - 1 ? ET::kUp : ET::kMove, p.x, p.y,
                  TimingPoint(timing, i));
    // In the rests, the stylus is still too, except in every third one.
    SetStylus(stylus, shape != kRests || (i - 1) / 3 % 3 == 2 ? i : i < 4 ? 0 : (i - 1) / 3, in);
    s.push_back(in);
  }
  return s;
}

// Reset with parameters that the caller changes and frees right afterwards.
inline absl::Status ResetCopied(StrokeModeler& m, const StrokeModelParams& p) {
  auto own = std::make_unique<StrokeModelParams>(p);
  absl::Status s = m.Reset(*own);
  StrokeModelParams other = BaseParams();
  other.wobble_smoother_params.timeout = Duration(3);
  other.position_modeler_params.spring_mass_constant = 10;
  other.sampling_params.min_output_rate = 7;
  other.sampling_params.max_outputs_per_call = 3;
  other.stylus_state_modeler_params.max_input_samples = 1;
  *own = other;
  return s;
}
// Update with an input that the caller changes and frees right afterwards.
inline absl::Status UpdateCopied(StrokeModeler& m, const Input& in, Results& out) {
  auto own = std::make_unique<Input>(in);
  absl::Status s = m.Update(*own, out);
  own->position = {1e3f, -1e3f};
  own->time = Time(-1e4);
  own->pressure = own->tilt = own->orientation = .123f;
  return s;
}

// The same stroke, f times smaller and faster: the same speeds, and f times as
// many inputs in any length of time.
inline Stroke Dense(Stroke s, double f) {
  double t0 = s[0].time.Value();
  for (Input& in : s) {
    in.position = {(float)(in.position.x / f), (float)(in.position.y / f)};
    in.time = Time(t0 + (in.time.Value() - t0) / f);
  }
  return s;
}

}  // namespace vx

#endif  // VERIF_COMMON_H_
