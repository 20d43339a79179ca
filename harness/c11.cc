// C11: the Kalman prediction, against the model of ref.h, and the invariants of
// its shape.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

StrokeModelParams Base() {
  StrokeModelParams p = BaseParams();
  p.sampling_params.min_output_rate = 173;
  p.sampling_params.max_outputs_per_call = 1000;
  p.wobble_smoother_params.is_enabled = false;
  p.prediction_params = BaseKalman();
  return p;
}

// A predict point: compare, and check the shape.
bool Predict(Conform& c, Ctx& ctx, const StrokeModelParams& p, int received, bool time_passed, double last_t, double gap) {
  const auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  if (!c.Predict()) return false;
  const Results& r = c.out();
  int maxn = p.sampling_params.max_outputs_per_call;
  if (received < k.min_stable_iteration && !r.empty()) {
    ctx.Fail("a prediction of %zu samples after %d inputs, min_stable_iteration is %d", r.size(), received, k.min_stable_iteration);
    return false;
  }
  if (!time_passed && !r.empty()) {
    ctx.Fail("a prediction although no time has passed");
    return false;
  }
  if ((int)r.size() > maxn) {
    ctx.Fail("%zu samples, max_outputs_per_call is %d", r.size(), maxn);
    return false;
  }
  double dt = 1 / p.sampling_params.min_output_rate, t = last_t;
  for (const Result& x : r) {
    if (std::fabs(x.time.Value() - t - dt) > 2e-6 * dt * r.size() + 1e-6 * gap + 1e-12 * std::fabs(t)) {
      ctx.Fail("prediction at %.17g, the previous sample is at %.17g", x.time.Value(), t);
      return false;
    }
    t = x.time.Value();
  }
  if (!r.empty()) ctx.c.nontrivial++;
  return true;
}

class Run {
 public:
  Run(const StrokeModelParams& p, Ctx& ctx) : p_(p), ctx_(ctx), c_(p, ctx, kMotion | kTime) {
    max_times_ = std::get<KalmanPredictorParams>(p.prediction_params).max_time_samples;
  }
  bool Update(const Input& in, bool predict) {
    if (!times_.empty() && in == last_) return true;
    gap_ = in.event_type == ET::kDown ? 0 : in.time.Value() - last_.time.Value();
    last_ = in;
    if (in.event_type == ET::kDown) {
      times_.clear();
      received_ = 0;
    }
    if (!c_.Update(in)) return false;
    if (!c_.accepted()) return true;
    if (in.event_type == ET::kUp) return true;
    ++received_;
    times_.push_back(in.time.Value());
    if ((int)times_.size() > max_times_) times_.pop_front();
    if (predict) return Predict(c_, ctx_, p_, received_, times_.back() > times_.front(), in.time.Value(), gap_);
    return true;
  }
  Conform& conform() { return c_; }

 private:
  StrokeModelParams p_;
  Ctx& ctx_;
  Conform c_;
  std::deque<double> times_;
  int received_ = 0, max_times_;
  double gap_ = 0;
  Input last_;
};

const float kDx[] = {0, .5f, -.75f, .03f};
const float kDy[] = {.1f, 0, 1, -.02f};
const double kDt[] = {0, 1 / 64., .0117, .05};

void Sequences(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  StrokeModelParams p = Base();
  auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  const int stable[] = {1, 2, 3, 4, 5};
  const int times[] = {1, 2, 3, 20};
  k.min_stable_iteration = stable[pick(5)];
  k.max_time_samples = times[pick(4)];
  if (pick(2)) {  // generous confidence
    k.confidence_params.desired_number_of_samples = 2;
    k.confidence_params.max_estimation_distance = 50;
    k.confidence_params.min_travel_speed = 0;
    k.confidence_params.max_travel_speed = 10;
    k.confidence_params.max_linear_deviation = 100;
  }
  Run r(p, ctx);
  Vec2 q{1, 2};
  double t = 4;
  if (!r.Update(In(ET::kDown, q.x, q.y, t), true)) return;
  for (int d = 0; d < depth; ++d) {
    int m = pick(16);
    q.x += kDx[m % 4];
    q.y += kDy[m % 4];
    t += kDt[m / 4];
    if (!r.Update(In(ET::kMove, q.x, q.y, t), true)) return;
  }
}

// Parameter variations, one or two fields at a time.
constexpr int kVar = 46;
void Vary(StrokeModelParams& p, int v) {
  auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  auto& c = k.confidence_params;
  auto& s = p.sampling_params;
  switch (v) {
    case 0: break;
    case 1: k.process_noise = 1e-6; break;
    case 2: k.process_noise = .3; break;
    case 3: k.process_noise = 20; break;
    case 4: k.measurement_noise = 1e-5; break;
    case 5: k.measurement_noise = 1; break;
    case 6: k.measurement_noise = 50; break;
    case 7: k.min_stable_iteration = 1; break;
    case 8: k.min_stable_iteration = 2; break;
    case 9: k.min_stable_iteration = 17; break;
    case 10: k.max_time_samples = 1; break;
    case 11: k.max_time_samples = 2; break;
    case 12: k.max_time_samples = 5; break;
    case 13: k.max_time_samples = 100; break;
    case 14: k.min_catchup_velocity = 3; break;
    case 15: k.min_catchup_velocity = 100; break;
    case 16: k.acceleration_weight = 0; break;
    case 17: k.acceleration_weight = 1; break;
    case 18: k.acceleration_weight = 2.5f; break;
    case 19: k.jerk_weight = 0; break;
    case 20: k.jerk_weight = 1; break;
    case 21: k.jerk_weight = -.7f; break;
    case 22: k.prediction_interval = Duration(.005); break;
    case 23: k.prediction_interval = Duration(.0333); break;
    case 24: k.prediction_interval = Duration(.7); break;
    case 25: c.desired_number_of_samples = 1; break;
    case 26: c.desired_number_of_samples = 5; break;
    case 27: c.desired_number_of_samples = 200; break;
    case 28: c.max_estimation_distance = .05f; break;
    case 29: c.max_estimation_distance = 30; break;
    case 30: c.min_travel_speed = 0; break;
    case 31: c.min_travel_speed = 4; break;
    case 32: c.max_travel_speed = 300; break;
    case 33: c.max_travel_speed = .5f; break;
    case 34: c.max_linear_deviation = .01f; break;
    case 35: c.max_linear_deviation = 50; break;
    case 36: c.baseline_linearity_confidence = 0; break;
    case 37: c.baseline_linearity_confidence = 1; break;
    case 38: s.min_output_rate = 60; break;
    case 39: s.min_output_rate = 611; break;
    case 40: s.max_outputs_per_call = 30; break;
    case 41: s.max_outputs_per_call = 12; break;
    case 42: p.wobble_smoother_params.is_enabled = true; break;
    case 43: p.position_modeler_params.spring_mass_constant = 5e-3f; break;
    case 45: s.min_output_rate = 20000; s.max_outputs_per_call = 50000; break;
    case 44: c.max_estimation_distance = 100; c.max_linear_deviation = 1e4f; c.desired_number_of_samples = 1; break;
  }
}
void Params(uint64_t i, Ctx& ctx, int len, bool pairs) {
  Pick pick(i);
  StrokeModelParams p = Base();
  int a = pick(kVar), b = pairs ? pick(kVar) : 0;
  if (pairs && b <= a) return;
  // wide open unless narrowed by the variation, so that confidence is not just 0
  Vary(p, 44);
  if (a != 44) std::get<KalmanPredictorParams>(p.prediction_params).confidence_params.desired_number_of_samples = 12;
  Vary(p, a);
  if (pairs) Vary(p, b);
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const float scales[] = {1, .1f, 10};
  float scale = pairs ? 1 : scales[pick(3)];
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  Run r(p, ctx);
  int n = 0;
  for (Input in : MakeStroke(shape, timing, kAllUnknown, len)) {
    in.position = {in.position.x * scale, in.position.y * scale};
    if (!r.Update(in, !pairs || ++n > len - 3)) return;
  }
}

// Large counts, and more inputs than them.
void Many(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  StrokeModelParams p = Base();
  Vary(p, 44);
  auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  const int stable[] = {4, 60}, times[] = {20, 60, 200}, desired[] = {1, 150};
  k.min_stable_iteration = stable[pick(2)];
  k.max_time_samples = times[pick(3)];
  k.confidence_params.desired_number_of_samples = desired[pick(2)];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const double fs[] = {1, 10};
  double f = fs[pick(2)];
  Run r(p, ctx);
  int n = 0;
  for (const Input& in : Dense(MakeStroke(shape, timing, kAllUnknown, len), f))
    if (!r.Update(in, ++n % 5 == 0 || (n > 55 && n < 65))) return;
}

// Stylus values known: the samples pass through the stylus modeler too.
void Known(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  StrokeModelParams p = Base();
  Vary(p, pick(2) ? 44 : 0);
  p.wobble_smoother_params.is_enabled = pick(2);
  if (pick(2)) {
    auto& s = p.stylus_state_modeler_params;
    s.use_stroke_normal_projection = true;
    s.min_input_samples = 4;
    s.min_sample_duration = Duration(.03);
  }
  int shape = pick(kNumShapes), timing = pick(kNumTimings), stylus = pick(kNumStylus);
  Run r(p, ctx);
  for (int k = 0; k < 2; ++k)
    for (const Input& in : MakeStroke((shape + k) % kNumShapes, timing, stylus, len))
      if (!r.Update(in, true)) return;
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  const int vs[] = {44, 7, 12, 42, 10, 20};
  int k = pick(6);
  StrokeModelParams p = Base();
  if (k != 1) Vary(p, 44);
  Vary(p, vs[k]);
  Conform c(p, ctx, kMotion | kTime);
  if (Session(pick, c, p, thorough, true)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(kVar);
  StrokeModelParams p = Base();
  Vary(p, 44);
  Vary(p, k);
  if (k == 45) p.sampling_params.min_output_rate = 611;
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kMotion | kTime);
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (true && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kMotion | kTime);
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and the predictor's parameters decoded from its index, with predictions at every input; non-trivial counts the non-empty predictions");
  AddAssumption("rounding: as for C08");
  std::vector<Space> v;
  int d = thorough ? 5 : 4;
  v.push_back({"sequences", "all sequences of a Down and " + std::to_string(d) + " of 16 Moves (4 displacements, 4 time steps incl. 0), a prediction after each; 5 values of min_stable_iteration, 4 of max_time_samples, 2 confidence settings",
               40 * Pow(16, d), [=](uint64_t i, Ctx& c) { Sequences(i, c, d); }});
  int len = thorough ? 120 : 35;
  v.push_back({"parameters", "46 variations of the predictor and sampling parameters, 48 strokes of " + std::to_string(len) + " inputs, 3 scales; a prediction after each input",
               (uint64_t)kVar * kNumShapes * kNumTimings * 3, [=](uint64_t i, Ctx& c) { Params(i, c, len, false); }});
  v.push_back({"pairs", "all pairs of these variations; predictions at the last two inputs of 48 strokes of 20",
               (uint64_t)kVar * kVar * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Params(i, c, 20, true); }});
  v.push_back({"known", "two strokes one after the other, 6 stylus signals, smoothing and normal projection on or off; a prediction after each input",
               8ull * kNumShapes * kNumTimings * kNumStylus, [=](uint64_t i, Ctx& c) { Known(i, c, len); }});
  int ml = thorough ? 1000 : 260;
  v.push_back({"many", "48 strokes of " + std::to_string(ml) + " inputs, at their speed and 10 times as dense; min_stable_iteration 4 and 60, max_time_samples 20, 60 and 200, desired_number_of_samples 1 and 150",
               12ull * kNumShapes * kNumTimings * 2, [=](uint64_t i, Ctx& c) { Many(i, c, ml); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; a prediction after each input; 6 parameter sets",
               6 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; 46 variations of the parameters; a prediction after each input",
               12ull * kNumShapes * kNumTimings * 46, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C11", Make); }
