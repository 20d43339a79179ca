// C17: every call returns, without undefined behaviour (built with address and
// undefined behaviour sanitizers) and with finite values on ordinary strokes.
#include <array>
#include <climits>

#include <sanitizer/allocator_interface.h>

#include "fields.h"

using namespace vx;

namespace {

// Calls everything; a crash, a sanitizer report or a call that does not return
// ends the process, which the explorer reports.
class Driver {
 public:
  Driver(const SS& p, Ctx& ctx) : ctx_(ctx), p_(p) {
    absl::Status s = ResetCopied(*m_, p);
    valid_ = s.ok();
  }
  bool valid() const { return valid_; }
  bool Update(const Input& in) {
    if (ctx_.failed) return false;
    ctx_.Log("Update %s", Str(in).c_str());
    ctx_.c.transitions++;
    size_t before = out_.size();
    absl::Status s = UpdateCopied(*m_, in, out_);
    size_t n = out_.size() - before;
    ctx_.c.compared += n;
    if (s.ok()) {
      ctx_.c.nontrivial++;
      if ((int)n > p_.sampling_params.max_outputs_per_call && n > 1) ctx_.Fail("%zu results", n);
    }
    uint64_t h = Mix((int)s.code(), n);
    if (n) h = HashResult(h, out_.back());
    ctx_.State(h);
    if (out_.size() > 5000) out_.clear();
    return !ctx_.failed;
  }
  bool Predict() {
    if (ctx_.failed) return false;
    ctx_.Log("Predict");
    ctx_.c.transitions++;
    Results r;
    absl::Status s = m_->Predict(r);
    ctx_.c.compared += r.size();
    if (s.ok() && (int)r.size() > p_.sampling_params.max_outputs_per_call) ctx_.Fail("%zu predicted results", r.size());
    if (!r.empty()) ctx_.State(HashResult(r.size(), r.back()));
    return !ctx_.failed;
  }
  void Save() { m_->Save(); }
  void Restore() { m_->Restore(); }

 private:
  Ctx& ctx_;
  SS p_;
  // On the heap, which the address sanitizer fills: what a constructor leaves
  // uninitialized is then NaN, or no bool.
  std::unique_ptr<StrokeModeler> m_{new StrokeModeler};
  bool valid_ = false;
  Results out_;
};

constexpr int kConfigs = 9;
const std::vector<Config>& Configs() {
  static const std::vector<Config> v = [] {
    std::vector<Config> v = StageConfigs();
    SS p = BaseParams();  // unlimited windows
    EnableLoopMitigation(p);
    p.stylus_state_modeler_params.min_input_samples = INT_MAX;
    p.stylus_state_modeler_params.min_sample_duration = Duration(1e308);
    p.position_modeler_params.loop_contraction_mitigation_params.min_discrete_speed_samples = 10000;
    p.position_modeler_params.loop_contraction_mitigation_params.min_speed_sampling_window = Duration(10000);
    p.wobble_smoother_params.timeout = Duration(1e308);
    KalmanPredictorParams k = BaseKalman();
    k.min_stable_iteration = 1;
    k.max_time_samples = INT_MAX;
    k.prediction_interval = Duration(1e300);
    k.confidence_params.desired_number_of_samples = 1;
    k.confidence_params.max_estimation_distance = 3e38f;
    k.confidence_params.min_travel_speed = 0;
    k.confidence_params.max_travel_speed = 0;
    k.confidence_params.max_linear_deviation = 3e38f;
    p.prediction_params = k;
    v.push_back({"unlimited", p});
    p = BaseParams();  // smallest of everything
    p.wobble_smoother_params.timeout = Duration(0);
    p.wobble_smoother_params.speed_floor = p.wobble_smoother_params.speed_ceiling = 0;
    p.stylus_state_modeler_params.max_input_samples = 1;
    p.sampling_params.end_of_stroke_max_iterations = 1;
    p.sampling_params.max_outputs_per_call = 1;
    p.sampling_params.max_estimated_angle_to_traverse_per_input = 5e-324;
    k = BaseKalman();
    k.min_stable_iteration = 1;
    k.max_time_samples = 1;
    k.confidence_params.desired_number_of_samples = 1;
    p.prediction_params = k;
    v.push_back({"smallest", p});
    p = BaseParams();
    p.sampling_params.max_estimated_angle_to_traverse_per_input = 1e-9;
    p.sampling_params.min_output_rate = 1e-300;
    p.stylus_state_modeler_params.use_stroke_normal_projection = true;
    p.stylus_state_modeler_params.min_input_samples = 1;
    p.stylus_state_modeler_params.min_sample_duration = Duration(5e-324);
    v.push_back({"rare+normal", p});
    return v;
  }();
  return v;
}

const float kMaxF = std::numeric_limits<float>::max();
// Positions, time differences and stylus values of the extreme alphabet.
const Vec2 kPos[] = {{0, 0}, {1, 2}, {kMaxF, -kMaxF}, {-kMaxF, -kMaxF}, {1e-45f, -1e-45f}, {1e20f, 3}, {kInf, 0}, {1, kNaN}, {-3e37f, 1e-38f}};
const double kStep[] = {0, .01, 5e-324, 1e-12, .4, 1e9, 1e308, -1, kDNaN, kDInf, 30};
const float kSty[][3] = {{-1, -1, -1}, {.5f, .5f, .5f}, {kNaN, kInf, -kInf}, {kMaxF, kMaxF, kMaxF}, {0, 1e-45f, 6.2831855f}, {kInf, .1f, 1e30f}};
constexpr int kNPos = 9, kNStep = 11, kNSty = 6;

void Extremes(uint64_t i, Ctx& ctx, int depth, int npos, int nstep, int nsty) {
  Pick pick(i);
  const SS& p = Configs()[pick(kConfigs)].p;
  Driver d(p, ctx);
  if (!d.valid()) return ctx.Fail("valid parameters rejected");
  const double starts[] = {0, 1e9, -1e308};
  double t = starts[pick(3)];
  for (int k = 0; k <= depth; ++k) {
    Vec2 q = kPos[pick(npos)];
    double step = k == 0 ? 0 : kStep[pick(nstep)];
    const float* s = kSty[pick(nsty)];
    ET e = k == 0 ? ET::kDown : k == depth ? ET::kUp : ET::kMove;
    d.Update(In(e, q.x, q.y, t + step, s[0], s[1], s[2]));
    if (std::isfinite(t + step)) t += step;
    d.Predict();
    if (k == 0) d.Save();
    if (ctx.failed) return;
  }
  // again from the saved state, with an ordinary input
  d.Restore();
  d.Update(In(ET::kMove, 3, 4, t + .02, .5f, .5f, .5f));
  d.Predict();
  d.Update(In(ET::kUp, 4, 4, t + .03, .5f, .5f, .5f));
}

// Windows that hold hundreds of inputs.
void Crowded(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  SS p = Configs()[pick(2) + 1].p;
  int big = pick(3);
  const int n[] = {60, 200, 700};
  auto& s = p.stylus_state_modeler_params;
  s.max_input_samples = s.min_input_samples = n[big];
  s.min_sample_duration = Duration(big + .2);
  s.use_stroke_normal_projection = pick(2);
  p.wobble_smoother_params.is_enabled = true;
  p.wobble_smoother_params.timeout = Duration(.3 * (1 + big));
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  if (l.is_enabled) {
    s.use_stroke_normal_projection = true;
    l.min_discrete_speed_samples = n[big];
    l.min_speed_sampling_window = Duration(big + .1);
  }
  KalmanPredictorParams k = BaseKalman();
  k.max_time_samples = n[big];
  p.prediction_params = k;
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Driver d(p, ctx);
  if (!d.valid()) return ctx.Fail("valid parameters rejected");
  int c = 0;
  Stroke st = Dense(MakeStroke(shape, timing, kAllKnown, len), timing % 2 ? 16 : 4);
  for (const Input& in : st) {
    if (!d.Update(in)) return;
    ++c;
    if (c == len / 3) d.Save();
    if (c % 64 == 0) d.Predict();
    if (c == len / 2) {
      d.Restore();
      d.Predict();
    }
  }
}

// Event types that are not known, in every state.
void Events(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  Driver d(Configs()[pick(kConfigs)].p, ctx);
  double t = 1;
  for (int k = 0; k < depth; ++k) {
    int e = pick(9);
    if (e == 6) d.Save();
    else if (e == 7) d.Restore();
    else if (e == 8) d.Predict();
    else {
      const ET types[] = {ET::kDown, ET::kMove, ET::kUp, (ET)3, (ET)-1, (ET)INT_MAX};
      t += .009;
      d.Update(In(types[e], .5f * k, 1, t, .5f, .2f, 1));
    }
  }
}

// A pen that rests: the predictor's velocity decays to nothing, and with a tiny
// min_catchup_velocity and a high rate the connector would need more samples
// than any integer counts.
void Resting(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  SS p = Configs()[pick(2) + 1].p;
  KalmanPredictorParams k = BaseKalman();
  const float vs[] = {1e-45f, 1e-30f, 1e-10f, .01f};
  k.min_catchup_velocity = vs[pick(4)];
  k.min_stable_iteration = 1;
  const double intervals[] = {1e-12, .1, 1e300};
  k.prediction_interval = Duration(intervals[pick(3)]);
  p.prediction_params = k;
  const double rates[] = {180, 1e6, 1e12, 1e300};
  p.sampling_params.min_output_rate = rates[pick(4)];
  const int maxs[] = {1, 100, 1000};
  p.sampling_params.max_outputs_per_call = maxs[pick(3)];
  const double gaps[] = {.5, 1, 40};
  double gap = gaps[pick(3)] / p.sampling_params.min_output_rate;
  const float scales[] = {1e-30f, 1, 1e30f};
  float scale = scales[pick(3)];
  int moves = pick(3);
  Driver d(p, ctx);
  if (!d.valid()) return;
  double t = 0;
  for (int j = 0; j < len; ++j) {
    Vec2 q = ShapePoint(kZigzag, std::min(j, 1 + 2 * moves));
    d.Update(In(j ? ET::kMove : ET::kDown, q.x * scale, q.y * scale, t));
    t += gap;
    if (j < 5 || j % 8 == 0) d.Predict();
    if (ctx.failed) return;
  }
}

// Extreme but valid parameters, two fields at a time.
const std::vector<double>& Extreme(const Field& f) {
  static const std::vector<double> fl = {1e-45f, 1e-38f, 1e-10f, 0, 1, 1e10f, 1e30f, kMaxF, -kMaxF, -1e-45f};
  static const std::vector<double> db = {5e-324, 1e-308, 1e-30, 0, 1, 3.14159, 1e10, 1e30, 1e300, 1.7e308};
  static const std::vector<double> in = {1, 2, 3, 10, 100, 1000, INT_MAX, 10000};
  static const std::vector<double> few = {1, 2, 3, 10, 100, 1000};
  if (f.type == 'f') return fl;
  if (f.type == 'd') return db;
  return strstr(f.name, "max_outputs") ? few : in;
}
const std::vector<std::array<int, 4>>& FieldPairs() {
  static const std::vector<std::array<int, 4>> v = [] {
    std::vector<std::array<int, 4>> v;
    const auto& f = Fields();
    for (int a = 0; a < (int)f.size(); ++a)
      for (int b = a + 1; b < (int)f.size(); ++b)
        for (int x = 0; x < (int)Extreme(f[a]).size(); ++x)
          for (int y = 0; y < (int)Extreme(f[b]).size(); ++y) v.push_back({a, x, b, y});
    return v;
  }();
  return v;
}
void Params(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  int base = pick(3), stroke = pick(6);
  auto [f1, v1, f2, v2] = FieldPairs()[pick.rest()];
  const Field &a = Fields()[f1], &b = Fields()[f2];
  SS p = Configs()[base == 0 ? 2 : base == 1 ? 5 : 3].p;
  p.sampling_params.max_outputs_per_call = 300;
  a.set(p, Extreme(a)[v1]);
  b.set(p, Extreme(b)[v2]);
  ctx.Log("%s = %.17g", a.name, Extreme(a)[v1]);
  ctx.Log("%s = %.17g", b.name, Extreme(b)[v2]);
  Driver d(p, ctx);
  if (!d.valid()) return;
  // ordinary strokes, and strokes with gaps, huge or equal coordinates
  for (int k = 0; k < 8; ++k) {
    Vec2 q = ShapePoint(stroke == 1 ? kPauses : kLoop, k);
    double t = 1 + .011 * k;
    if (stroke == 2) q = {q.x * 1e36f, q.y * -1e37f};
    if (stroke == 3) t = 1 + 1e5 * k;
    if (stroke == 4) t = 1 + 1e-9 * k;
    if (stroke == 5) q = {1e-40f * k, -1e-44f};
    float s = .1f * k;
    d.Update(In(k == 0 ? ET::kDown : k == 7 ? ET::kUp : ET::kMove, q.x, q.y, t, s, s, s));
    if (k < 7 && k % 2) d.Predict();
  }
}

// The memory in use does not grow with the number of inputs or of strokes: the
// bytes allocated at the end of the second and of the last of several equal
// rounds.
void Memory(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  const SS& p = Configs()[pick(6)].p;
  int mode = pick(8), timing = pick(kNumTimings), shape = pick(kNumShapes);
  StrokeModeler m;
  if (!m.Reset(p).ok()) return ctx.Fail("valid parameters rejected");
  Stroke s = MakeStroke(shape, timing, kAllKnown, len);
  double span = s.back().time.Value() - s.front().time.Value() + .01;
  Results out, pred;
  out.reserve(100000);
  pred.reserve(100000);
  const int rounds = 6;
  size_t before = 0, after = 0, calls = 0;
  for (int r = 0; r < rounds; ++r) {
    for (int k = 0; k < len; ++k) {
      Input in = s[k];
      // 0: one stroke; 1: with predictions; 2: many strokes; 3: one stroke with
      // Save and Restore; 4: strokes abandoned by Reset; 5: rejected inputs;
      // 6: strokes after Reset with parameters; 7: strokes with a Save in each
      bool one = mode != 2 && mode != 4 && mode != 6 && mode != 7;
      if (one) in.event_type = r == 0 && k == 0 ? ET::kDown : ET::kMove;
      if (mode == 4 && k == len - 1) in.event_type = ET::kMove;
      if (mode >= 6) {  // short strokes
        in.event_type = k % 10 == 0 ? ET::kDown : k % 10 == 9 ? ET::kUp : ET::kMove;
        if (mode == 6 && k % 10 == 0) (void)m.Reset(p);
        if (mode == 7 && k % 10 == 5) m.Save();
        if (mode == 7 && k % 20 == 8) m.Restore();
      }
      in.time = Time(in.time.Value() + r * span);
      (void)m.Update(in, out);
      ++calls;
      if (mode == 1 && k % 3 == 0) (void)m.Predict(pred);
      if (mode == 3 && k % 50 == 0) m.Save();
      if (mode == 3 && k % 50 == 20) m.Restore();
      if (mode == 5) {
        in.time = Time(in.time.Value() - 1);
        (void)m.Update(in, out);
        in.time = Time(kDNaN);
        (void)m.Update(in, out);
      }
      if (out.size() > 5000) out.clear();
    }
    if (mode == 4) (void)m.Reset();
    size_t now = __sanitizer_get_current_allocated_bytes();
    if (r == 1) before = now;
    after = now;
  }
  ctx.c.transitions += calls;
  ctx.c.nontrivial++;
  ctx.c.compared++;
  if (after > before + 32768) ctx.Fail("%zu bytes in use after 2 of %d equal rounds of %d inputs, %zu after all", before, rounds, len, after);
}

// ------------------------------------------------- finite on ordinary strokes

void FiniteResults(const char* what, const Results& v, size_t from, Ctx& ctx) {
  for (size_t i = from; i < v.size(); ++i) {
    const Result& r = v[i];
    ctx.c.compared++;
    for (double x : {(double)r.position.x, (double)r.position.y, (double)r.velocity.x, (double)r.velocity.y, (double)r.acceleration.x,
                     (double)r.acceleration.y, r.time.Value(), (double)r.pressure, (double)r.tilt, (double)r.orientation})
      if (!std::isfinite(x)) return ctx.Fail("%s: result %zu is %s", what, i - from, Str(r).c_str());
  }
}
constexpr int kOrdinary = 11, kLongOrdinary = kOrdinary + kAllStages;
SS Ordinary(int k) {
  std::vector<Config> v = StageConfigs();
  if (k < 6) {
    SS p = v[k].p;
    p.sampling_params.max_outputs_per_call = 1000;
    return p;
  }
  if (k >= kOrdinary) {
    SS p = AllStages()[k - kOrdinary].p;
    p.sampling_params.max_outputs_per_call = 1000;
    return p;
  }
  if (k > 7) {  // one sample more than the input needs; one try; and as many as possible
    SS p = v[k == 9 ? 1 : 0].p;
    p.sampling_params.max_outputs_per_call = k == 8 ? 1000 : 5000;
    p.sampling_params.end_of_stroke_max_iterations = k == 10 ? 1000 : 1;
    if (k == 10) p.sampling_params.end_of_stroke_stopping_distance = 1e-30f;
    if (k == 10) p.sampling_params.max_estimated_angle_to_traverse_per_input = .001;
    return p;
  }
  SS p = v[k == 6 ? 2 : 3].p;
  p.sampling_params.max_outputs_per_call = 1000;
  p.stylus_state_modeler_params.min_input_samples = 1;
  p.stylus_state_modeler_params.min_sample_duration = Duration(1e-9);
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.speed_lower_bound = l.speed_upper_bound = k == 6 ? 0 : 5;
  l.interpolation_strength_at_speed_lower_bound = 1;
  l.interpolation_strength_at_speed_upper_bound = 0;
  l.min_discrete_speed_samples = 1;
  l.min_speed_sampling_window = Duration(1e-9);
  p.wobble_smoother_params.timeout = Duration(k == 6 ? 0 : .04);
  p.wobble_smoother_params.speed_floor = p.wobble_smoother_params.speed_ceiling = 3;
  return p;
}
void RunOrdinary(const SS& p, const Stroke& s, Ctx& ctx) {
  std::unique_ptr<StrokeModeler> own(new StrokeModeler);
  StrokeModeler& m = *own;
  if (!m.Reset(p).ok()) return ctx.Fail("valid parameters rejected");
  bool predicts = !std::holds_alternative<sm::DisabledPredictorParams>(p.prediction_params);
  for (const Input& in : s) {
    Results out, pred;
    ctx.Log("Update %s", Str(in).c_str());
    ctx.c.transitions++;
    absl::Status st = m.Update(in, out);
    if (!st.ok()) continue;  // a duplicate
    ctx.c.nontrivial++;
    if (in.event_type != ET::kDown) FiniteResults("Update", out, 0, ctx);
    if (in.event_type != ET::kUp && predicts) {
      if (!m.Predict(pred).ok()) return ctx.Fail("Predict fails");
      FiniteResults("Predict", pred, 0, ctx);
      ctx.State(HashResults(pred));
    }
    ctx.State(HashResults(out));
    if (ctx.failed) return;
  }
}
const float kDx[] = {0, .5f, -2, 1e-6f};
const float kDy[] = {0, 0, 2, 0};
const double kDt[] = {0, .01, 1e-9, 1};
void OrdinarySequences(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  SS p = Ordinary(pick(kOrdinary));
  if (pick(2)) p.sampling_params.max_outputs_per_call = INT_MAX;
  int stylus = pick(3);
  Stroke s;
  Vec2 q{1, 2};
  double t = 4;
  auto input = [&](ET e, int k) {
    return stylus == 0 ? In(e, q.x, q.y, t) : stylus == 1 ? In(e, q.x, q.y, t, .5f, .1f * k, 1.f * k) : In(e, q.x, q.y, t, k ? .5f : kNaN, -.5f, 20);
  };
  s.push_back(input(ET::kDown, 0));
  for (int k = 1; k <= depth; ++k) {
    int c = pick(4);
    q.x += kDx[c];
    q.y += kDy[c];
    t += kDt[pick(4)];
    s.push_back(input(k == depth ? ET::kUp : ET::kMove, k));
  }
  RunOrdinary(p, s, ctx);
}
void OrdinaryStrokes(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  SS p = Ordinary(pick(kLongOrdinary));
  if (pick(2)) p.sampling_params.max_outputs_per_call = INT_MAX;
  int shape = pick(kNumShapes), timing = pick(kNumTimings), stylus = pick(kNumStylus), scale = pick(3);
  Stroke s = MakeStroke(shape, timing, stylus, len);
  const float scales[] = {1, 1000, .001f};
  for (Input& in : s) in.position = {in.position.x * scales[scale], in.position.y * scales[scale]};
  RunOrdinary(p, s, ctx);
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a sequence of calls and the parameters decoded from its index, run in a build with address and undefined behaviour sanitizers and library assertions and a CPU time limit; non-trivial counts the accepted inputs");
  AddAssumption("max_outputs_per_call is at most 1000 in the enumerated parameters (for ordinary strokes also INT_MAX): time and memory of a call are bounded by it");
  std::vector<Space> v;
  v.push_back({"extremes-1", "a Down and an Up from 9 positions, 11 time steps and 6 stylus triples, including infinities, NaN, denormal and largest values; 9 configurations, 3 starting times; predictions, save and restore",
               (uint64_t)kConfigs * 3 * kNPos * kNSty * kNPos * kNStep * kNSty, [](uint64_t i, Ctx& c) { Extremes(i, c, 1, kNPos, kNStep, kNSty); }});
  int np = thorough ? 9 : 6, ns = thorough ? 9 : 7, ny = thorough ? 4 : 2;
  v.push_back({"extremes-2", "a Down, a Move and an Up from " + std::to_string(np) + " positions, " + std::to_string(ns) + " time steps and " + std::to_string(ny) + " stylus triples",
               (uint64_t)kConfigs * 3 * np * ny * Pow(np * ns * ny, 2), [=](uint64_t i, Ctx& c) { Extremes(i, c, 2, np, ns, ny); }});
  int de = thorough ? 7 : 5;
  v.push_back({"events", "all sequences of " + std::to_string(de) + " calls: six event types (three of them unknown), save, restore, predict",
               kConfigs * Pow(9, de), [=](uint64_t i, Ctx& c) { Events(i, c, de); }});
  int cl = thorough ? 4000 : 800;
  v.push_back({"crowded", "48 strokes of " + std::to_string(cl) + " dense inputs with windows of 60, 200 and 700 inputs, normal projection and mitigation on and off; predictions, save and restore",
               12ull * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Crowded(i, c, cl); }});
  int ml = thorough ? 3000 : 1000;
  v.push_back({"memory", "6 rounds of " + std::to_string(ml) + " inputs as one stroke (plain, with predictions, with save and restore, with rejected inputs) or many (ended, or abandoned by Reset, or short with a Reset to parameters or a Save and Restore in each), 48 strokes, 6 configurations: the memory in use does not grow from the second round to the last",
               48ull * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Memory(i, c, ml); }});
  v.push_back({"params", "all pairs of fields at all pairs of extreme valid values, 3 configurations, 6 strokes", 3ull * 6 * FieldPairs().size(), Params});
  int rl = thorough ? 1000 : 150;
  v.push_back({"resting", "one to five Moves, then " + std::to_string(rl) + " inputs at rest, with predictions: 4 values of min_catchup_velocity, 3 prediction intervals, 4 rates up to 1e300, 3 output limits, 3 gaps, 3 scales, 2 configurations",
               2ull * 4 * 3 * 4 * 3 * 3 * 3 * 3, [=](uint64_t i, Ctx& c) { Resting(i, c, rl); }});
  int d = thorough ? 4 : 3;
  v.push_back({"finite", "ordinary strokes: all sequences of a Down, " + std::to_string(d - 1) + " Moves and an Up over 4 displacements and 4 time steps, 11 configurations, with max_outputs_per_call 1000 or INT_MAX, 3 stylus signals; every value is finite",
               2ull * kOrdinary * 3 * Pow(16, d), [=](uint64_t i, Ctx& c) { OrdinarySequences(i, c, d); }});
  int len = thorough ? 300 : 40;
  v.push_back({"finite-long", "48 ordinary strokes of " + std::to_string(len) + " inputs, 3 scales, 6 stylus signals, 47 configurations, with max_outputs_per_call 1000 or INT_MAX; every value is finite",
               2ull * kLongOrdinary * kNumShapes * kNumTimings * kNumStylus * 3, [=](uint64_t i, Ctx& c) { OrdinaryStrokes(i, c, len); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C17", Make); }
