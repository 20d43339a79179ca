// C10: the stroke-end prediction, against what an Up of a second modeler with
// the same history appends; with smoothing, against the model of ref.h.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

struct Spring {
  float k, drag;
};
const Spring kSprings[] = {{11.f / 32400, 72.f}, {1.f / 4096, 64.f}, {1e-4f, 150.f}, {2e-3f, 5.f}, {2e-3f, 100.f}, {4e-5f, 30.f}};
constexpr int kNumSprings = 6;
const double kRates[] = {180, 128, 61, 1000};
const float kStop[] = {.001f, .03125f, .3f, 1e-6f, 2};
const int kIter[] = {1, 2, 5, 20, 1000};
const int kMaxOut[] = {5000, 12, 5, 2, 1};
const float kDx[] = {0, 1, -2.5f, .002f, 8, 0};
const float kDy[] = {0, .25f, 1.5f, -.001f, -3, .02f};
const double kDt[] = {0, 1 / 128., .0213};

StrokeModelParams Params(int spring, int rate, int stop, int iter, int max_out) {
  StrokeModelParams p = BaseParams();
  p.position_modeler_params.spring_mass_constant = kSprings[spring].k;
  p.position_modeler_params.drag_constant = kSprings[spring].drag;
  p.sampling_params.min_output_rate = kRates[rate];
  p.sampling_params.end_of_stroke_stopping_distance = kStop[stop];
  p.sampling_params.end_of_stroke_max_iterations = kIter[iter];
  p.sampling_params.max_outputs_per_call = kMaxOut[max_out];
  p.wobble_smoother_params.is_enabled = false;
  return p;
}

bool CloseF(double a, double b, double scale) {
  return SameF(a, b) || std::fabs(a - b) <= 2e-6 * std::max({std::fabs(a), std::fabs(b), scale});
}

// Predicts after the inputs of s, and ends the same stroke in another modeler.
bool Check(const StrokeModelParams& p, const Stroke& s, StrokeModeler& m, const Result& tip, Ctx& ctx) {
  Results pred, end, ignored;
  absl::Status st = m.Predict(pred);
  ctx.c.transitions++;
  if (!st.ok()) {
    ctx.Fail("Predict: %s", Str(st).c_str());
    return false;
  }
  StrokeModeler other;
  (void)other.Reset(p);
  for (const Input& in : s)
    if (!other.Update(in, ignored).ok()) {
      ctx.Fail("%s: accepted by one modeler and rejected by another", Str(in).c_str());
      return false;
    }
  Input up = s.back();
  up.event_type = ET::kUp;
  st = other.Update(up, end);
  if (!st.ok()) {
    ctx.Fail("%s: %s", Str(up).c_str(), Str(st).c_str());
    return false;
  }
  ctx.Log("Predict: %zu results; %s: %zu results", pred.size(), Str(up).c_str(), end.size());
  for (auto& r : pred) ctx.Log("    %s", Str(r).c_str());
  for (auto& r : end) ctx.Log("    up %s", Str(r).c_str());
  ctx.State(HashResults(end));
  // An Up that has no catch-up sample yields just where it stopped: at most the
  // stopping distance away, or where it was.
  double stop = p.sampling_params.end_of_stroke_stopping_distance;
  double scale = std::max({std::fabs(tip.position.x), std::fabs(tip.position.y), std::fabs(up.position.x), std::fabs(up.position.y)});
  double moved = std::hypot((double)end[0].position.x - tip.position.x, (double)end[0].position.y - tip.position.y);
  bool nothing = end.size() == 1 && (moved < stop || end[0].time.Value() == tip.time.Value());
  if (pred.empty()) {
    if (nothing) return true;
    if (end.size() == 1 && moved - stop <= 1e-6 * scale) {
      ctx.c.ambiguous++;
      return true;
    }
    ctx.Fail("the prediction is empty, but the Up yields %zu results, the first %s", end.size(), Str(end[0]).c_str());
    return false;
  }
  ctx.c.nontrivial++;
  if (nothing) {
    if (stop - moved <= 1e-6 * scale) {
      ctx.c.ambiguous++;
      return true;
    }
    ctx.Fail("%zu predicted results, but the Up has no catch-up sample", pred.size());
    return false;
  }
  if (pred.size() != end.size()) {
    ctx.Fail("%zu predicted results, but the Up yields %zu", pred.size(), end.size());
    return false;
  }
  // A result is blended (fully towards the model) with the raw input's motion,
  // which bounds the rounding.
  double vs = 0, as = 0, pvx = 0, pvy = 0;
  for (size_t k = 1; k < s.size(); ++k) {
    double dt = s[k].time.Value() - s[k - 1].time.Value();
    if (dt <= 0) continue;
    double vx = ((double)s[k].position.x - s[k - 1].position.x) / dt, vy = ((double)s[k].position.y - s[k - 1].position.y) / dt;
    vs = std::max({vs, std::fabs(vx), std::fabs(vy)});
    as = std::max({as, std::fabs(vx - pvx) / dt, std::fabs(vy - pvy) / dt});
    pvx = vx;
    pvy = vy;
  }
  for (auto& r : end) {
    vs = std::max({vs, (double)std::fabs(r.velocity.x), (double)std::fabs(r.velocity.y)});
    as = std::max({as, (double)std::fabs(r.acceleration.x), (double)std::fabs(r.acceleration.y)});
  }
  for (size_t k = 0; k < pred.size(); ++k) {
    const Result &a = pred[k], &b = end[k];
    ctx.c.compared++;
    // Equal, but for how the compiler rounds two inlined copies of one formula.
    if (!CloseF(a.position.x, b.position.x, scale) || !CloseF(a.position.y, b.position.y, scale) ||
        !CloseF(a.velocity.x, b.velocity.x, vs) || !CloseF(a.velocity.y, b.velocity.y, vs) ||
        !CloseF(a.acceleration.x, b.acceleration.x, as) || !CloseF(a.acceleration.y, b.acceleration.y, as) ||
        !(SameF(a.time.Value(), b.time.Value()) || std::fabs(a.time.Value() - b.time.Value()) <= 1e-9 / p.sampling_params.min_output_rate + 1e-12 * std::fabs(b.time.Value()))) {
      ctx.Fail("predicted result %zu is %s, the Up yields %s", k, Str(a).c_str(), Str(b).c_str());
      return false;
    }
  }
  return true;
}

// Runs a stroke, checking after the inputs that `at` selects.
void Stroke1(const StrokeModelParams& p, const Stroke& s, Ctx& ctx, bool every) {
  StrokeModeler m;
  (void)m.Reset(p);
  Stroke done;
  Result tip;
  for (size_t k = 0; k < s.size(); ++k) {
    if (!done.empty() && s[k] == done.back()) continue;
    Results out;
    ctx.c.transitions++;
    ctx.Log("Update %s", Str(s[k]).c_str());
    absl::Status st = m.Update(s[k], out);
    if (!st.ok()) continue;  // too many outputs
    done.push_back(s[k]);
    tip = out.back();
    if ((every || k + 1 == s.size()) && !Check(p, done, m, tip, ctx)) return;
  }
}

void Endings(uint64_t i, Ctx& ctx, int moves) {
  Pick pick(i);
  StrokeModelParams p = Params(pick(kNumSprings), pick(4), pick(5), pick(5), pick(5));
  Stroke s;
  Vec2 q{.5f, .75f};
  double t = 2;
  s.push_back(In(ET::kDown, q.x, q.y, t));
  for (int m = 0; m < moves; ++m) {
    int k = pick(6);
    q.x += kDx[k];
    q.y += kDy[k];
    t += kDt[pick(3)];
    s.push_back(In(ET::kMove, q.x, q.y, t));
  }
  Stroke1(p, s, ctx, false);
}

// Stylus values, known or not, do not matter for the motion.
void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  StrokeModelParams p = Params(pick(kNumSprings), pick(4), pick(5), pick(5), pick(5));
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  int stylus = (shape + timing) % 2 ? (int)kAllKnown : (int)kPressureLost;
  Stroke s = MakeStroke(shape, timing, stylus, len);
  s.pop_back();
  Stroke1(p, s, ctx, true);
}

// With smoothing: the model's catch-up with the smoothed position.
void Smoothed(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  StrokeModelParams p = Params(pick(kNumSprings), pick(4), pick(5), pick(5), pick(2));
  p.wobble_smoother_params.is_enabled = true;
  const double timeouts[] = {.04, .015, .2};
  p.wobble_smoother_params.timeout = Duration(timeouts[pick(3)]);
  int slow = pick(2);
  p.wobble_smoother_params.speed_floor = slow ? 1e5f : 1.31f;
  p.wobble_smoother_params.speed_ceiling = slow ? 1e6f : 40;
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Conform c(p, ctx, kMotion | kTime);
  Stroke s = MakeStroke(shape, timing, kAllUnknown, len);
  s.pop_back();
  for (const Input& in : s) {
    if (!c.Update(in)) return;
    if (!c.Predict()) return;
    if (!c.out().empty()) ctx.c.nontrivial++;
  }
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int k = pick(6);
  StrokeModelParams p = Params(k % kNumSprings, k % 4, k % 5, 2 + k % 3, 0);
  p.wobble_smoother_params.is_enabled = k % 2;
  Conform c(p, ctx, kMotion | kTime);
  if (Session(pick, c, p, thorough, true)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(60);
  StrokeModelParams p = Params(k % kNumSprings, k % 4, k / 12, 1 + k / 15, 0);
  p.wobble_smoother_params.is_enabled = k % 2;
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kMotion | kTime);
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (true && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kMotion | kTime);
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and its parameters decoded from its index; at each prediction point a second modeler is given the same inputs and an Up; non-trivial counts the non-empty predictions");
  AddAssumption("smoothing on: rounding as for C08; whether an Up's only result is a catch-up sample is told from how far the tip moved");
  std::vector<Space> v;
  uint64_t params = kNumSprings * 4 * 5 * 5 * 5;
  int d = thorough ? 3 : 2;
  for (int k = 0; k <= d; ++k)
    v.push_back({"endings-" + std::to_string(k), "all sequences of a Down and " + std::to_string(k) + " Moves over 6 displacements and 3 time steps, then a prediction; 6 springs, 4 rates, 5 stopping distances, 5 iteration limits, 5 output limits",
                 params * Pow(18, k), [=](uint64_t i, Ctx& c) { Endings(i, c, k); }});
  int len = thorough ? 60 : 14;
  v.push_back({"long", "48 strokes of " + std::to_string(len) + " inputs with a prediction after each input", params * kNumShapes * kNumTimings,
               [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  v.push_back({"smoothed", "the same with smoothing: 3 timeouts, 2 speed ranges, 2 output limits; against the model", kNumSprings * 4ull * 5 * 5 * 2 * 6 * kNumShapes * kNumTimings,
               [=](uint64_t i, Ctx& c) { Smoothed(i, c, len); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; a prediction after each input; 6 parameter sets",
               6 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; 60 parameter sets; a prediction after each input",
               12ull * kNumShapes * kNumTimings * 60, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C10", Make); }
