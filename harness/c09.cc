// C09: the catch-up at the end of the stroke, against the model of ref.h.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

struct Spring {
  float k, drag;
};
const Spring kSprings[] = {{11.f / 32400, 72.f}, {1.f / 4096, 64.f}, {1e-4f, 150.f}, {2e-3f, 5.f}, {2e-3f, 100.f}, {4e-5f, 30.f},
                          // hardly damped
                          {.05f, .5f}, {1e-3f, 1.f}};
constexpr int kNumSprings = 6, kAllSprings = 8;
const double kRates[] = {180, 128, 61, 1000};
const float kStop[] = {.001f, .03125f, .3f, 1e-6f, 2};
const int kIter[] = {1, 2, 3, 5, 20, 60, 400, 7};
const int kMaxOut[] = {1000, 12, 5, 2, 1};

// The strokes that end: a few inputs, then an Up.
const float kDx[] = {0, 1, -2.5f, .002f, 8, 0};
const float kDy[] = {0, .25f, 1.5f, -.001f, -3, .02f};
const double kDt[] = {0, 1 / 128., .0213};

StrokeModelParams Params(int spring, int rate, int stop, int iter, int max_out) {
  StrokeModelParams p = BaseParams();
  p.position_modeler_params.spring_mass_constant = kSprings[spring].k;
  p.position_modeler_params.drag_constant = kSprings[spring].drag;
  p.sampling_params.min_output_rate = kRates[rate];
  p.sampling_params.end_of_stroke_stopping_distance = kStop[stop];
  p.sampling_params.end_of_stroke_max_iterations = kIter[iter];
  p.sampling_params.max_outputs_per_call = kMaxOut[max_out];
  p.wobble_smoother_params.is_enabled = false;
  p.prediction_params = sm::DisabledPredictorParams{};
  return p;
}

bool Finish(Conform& c, Ctx& ctx, const StrokeModelParams& p, const Input& up) {
  if (!c.Update(up) || !c.accepted()) return false;
  int n = (int)c.out().size();
  if (n > p.sampling_params.max_outputs_per_call)
    ctx.Fail("the Up yields %d results, max_outputs_per_call is %d", n, p.sampling_params.max_outputs_per_call);
  if (n > c.ref().n_steps + p.sampling_params.end_of_stroke_max_iterations && n > 1)
    ctx.Fail("the Up yields %d results, %d up to its time and at most %d tries", n, c.ref().n_steps,
             p.sampling_params.end_of_stroke_max_iterations);
  if (c.ref().n_eos > 0) ctx.c.nontrivial++;
  return true;
}

void Endings(uint64_t i, Ctx& ctx, int moves) {
  Pick pick(i);
  StrokeModelParams p = Params(pick(kNumSprings), pick(4), pick(5), pick(8), 0);
  int known = pick(2);
  Conform c(p, ctx, kMotion | kTime);
  Vec2 q{.5f, .75f};
  double t = 2;
  auto input = [&](ET e) { return known ? In(e, q.x, q.y, t, .5f, .5f, .5f) : In(e, q.x, q.y, t); };
  c.Update(input(ET::kDown));
  for (int m = 0; m <= moves; ++m) {
    int k = pick(6), d = pick(3);
    q.x += kDx[k];
    q.y += kDy[k];
    t += kDt[d];
    if (m < moves && !c.Update(input(ET::kMove))) return;
  }
  Finish(c, ctx, p, input(ET::kUp));
}

// With a limit on the number of outputs.
void Limits(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  StrokeModelParams p = Params(pick(kNumSprings), pick(4), pick(5), pick(8), pick(5));
  Conform c(p, ctx, kMotion | kTime);
  Vec2 q{.5f, .75f};
  double t = 2;
  c.Update(In(ET::kDown, q.x, q.y, t));
  for (int m = 0; m <= 1; ++m) {
    int k = pick(6), d = pick(3);
    q.x += kDx[k];
    q.y += kDy[k];
    t += kDt[d];
    if (m < 1 && !c.Update(In(ET::kMove, q.x, q.y, t))) return;
  }
  Finish(c, ctx, p, In(ET::kUp, q.x, q.y, t));
}

// The ends of long strokes.
void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int spring = pick(kNumSprings), rate = pick(4), stop = pick(5), iter = pick(8);
  int shape = pick(kNumShapes), timing = pick(kNumTimings), end = pick(len) + 2, smooth = pick(2);
  StrokeModelParams p = Params(spring, rate, stop, iter, 0);
  p.wobble_smoother_params.is_enabled = smooth;
  Conform c(p, ctx, kMotion | kTime);
  Stroke s = MakeStroke(shape, timing, kAllUnknown, end);
  for (size_t k = 0; k + 1 < s.size(); ++k)
    if (!c.Update(s[k])) return;
  if (s.size() > 1) Finish(c, ctx, p, s.back());
}

// As many tries as the parameters can ask for.
void ManyTries(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  StrokeModelParams p = Params(pick(kAllSprings), pick(4), 0, 0, 0);
  const float stops[] = {1e-30f, 1e-6f, .001f};
  const int iters[] = {1000, 640};
  p.sampling_params.end_of_stroke_stopping_distance = stops[pick(3)];
  p.sampling_params.end_of_stroke_max_iterations = iters[pick(2)];
  p.sampling_params.max_outputs_per_call = 5000;
  Conform c(p, ctx, kMotion | kTime);
  Vec2 q{.5f, .75f};
  double t = 2;
  c.Update(In(ET::kDown, q.x, q.y, t));
  for (int m = 0; m <= 1; ++m) {
    int k = pick(6), d = pick(3);
    q.x += kDx[k];
    q.y += kDy[k];
    t += kDt[d];
    if (m < 1 && !c.Update(In(ET::kMove, q.x, q.y, t))) return;
  }
  Finish(c, ctx, p, In(ET::kUp, q.x, q.y, t));
}

// Spring and rate for which the tip reaches the anchor in exactly one step, so
// that distances are exactly at the thresholds.
void Ties(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  StrokeModelParams p = Params(1, 0, 0, pick(8), 0);
  const double rates[] = {64, 128, 32};
  p.sampling_params.min_output_rate = rates[pick(3)];
  const float stops[] = {1 / 1024.f, 1 / 32.f, .25f};
  float stop = stops[pick(3)];
  p.sampling_params.end_of_stroke_stopping_distance = stop;
  const float f[] = {0, .5f, .75f, 1, 1.25f, 1.5f, 2, 3, 4, 8};
  Conform c(p, ctx, kMotion | kTime);
  Vec2 q{.5f, .75f};
  double t = 2;
  c.Update(In(ET::kDown, q.x, q.y, t));
  for (int m = 0; m < 3; ++m) {
    int k = pick(10), axis = pick(2);
    float d = stop * f[k];
    (axis ? q.x : q.y) += d;
    t += pick(2) / 64.;
    if (!c.Update(In(m < 2 ? ET::kMove : ET::kUp, q.x, q.y, t))) return;
  }
  if (c.ref().n_eos > 0) ctx.c.nontrivial++;
}

// Like Ties, with distances and overshoots slightly to either side of the thresholds.
void NearTies(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int iters[] = {1, 2, 5, 60};
  StrokeModelParams p = Params(1, 0, 0, 0, 0);
  p.sampling_params.end_of_stroke_max_iterations = iters[pick(4)];
  const double off[] = {0, 2e-5, -2e-5, 6e-5, -6e-5, 3e-4, -3e-4, 2e-3};
  const double rates[] = {64, 128, 32, 73.900835};  // a step covers 1, 1/4, 4, 3/4 of the distance
  p.sampling_params.min_output_rate = rates[pick(4)] * (1 + off[pick(8)]);
  const float stops[] = {1 / 1024.f, 1 / 32.f, .25f};
  float stop = stops[pick(3)];
  p.sampling_params.end_of_stroke_stopping_distance = stop * (float)(1 + off[pick(8)]);
  const float f[] = {0, .5f, .75f, 1, 1.25f, 1.5f, 2, 3, 4, 8};
  Conform c(p, ctx, kMotion | kTime);
  Vec2 q{.5f, .75f};
  if (pick(2)) q = {0, 0};
  double t = 2;
  c.Update(In(ET::kDown, q.x, q.y, t));
  for (int m = 0; m < 2; ++m) {
    int k = pick(10), axis = pick(2);
    float d = stop * f[k];
    (axis ? q.x : q.y) += d;
    if (m == 0) t += 1 / 64.;
    if (m == 0 && k == 0 && axis) continue;  // no Move
    if (!c.Update(In(m < 1 ? ET::kMove : ET::kUp, q.x, q.y, t))) return;
  }
  if (c.ref().n_eos > 0) ctx.c.nontrivial++;
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int k = pick(8);
  StrokeModelParams p = Params(k % kNumSprings, k % 4, k % 5, 7 - k, 0);
  p.wobble_smoother_params.is_enabled = k % 2;
  p.prediction_params = sm::StrokeEndPredictorParams{};
  Conform c(p, ctx, kMotion | kTime);
  if (Session(pick, c, p, thorough, false)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(48);
  StrokeModelParams p = Params(k % kNumSprings, k % 4, k % 5, k / 6, 0);
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kMotion | kTime);
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (false && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kMotion | kTime);
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and its sampling parameters decoded from its index; every result of its Up is compared with the model; non-trivial: the Up yields catch-up samples");
  AddAssumption("rounding: as for C08; a stop or overshoot decision within rounding of its threshold is counted as ambiguous, and the comparison given up if the implementation decides otherwise");
  std::vector<Space> v;
  uint64_t params = kNumSprings * 4 * 5 * 8;
  v.push_back({"endings-1", "all sequences of Down, Move, Up over 6 displacements and 3 time steps; 6 springs, 4 rates, 5 stopping distances, 8 iteration limits; stylus values known or not",
               params * 2 * Pow(18, 2), [=](uint64_t i, Ctx& c) { Endings(i, c, 1); }});
  if (thorough)
    v.push_back({"endings-2", "the same with two Moves", params * 2 * Pow(18, 3), [=](uint64_t i, Ctx& c) { Endings(i, c, 2); }});
  v.push_back({"limits", "the same with one Move and 5 values of max_outputs_per_call", params * 5 * Pow(18, 2),
               [=](uint64_t i, Ctx& c) { Limits(i, c); }});
  v.push_back({"ties", "distances exactly at, and at simple fractions and multiples of, the stopping distance in three inputs; 3 rates, 3 stopping distances, 8 iteration limits",
               8ull * 3 * 3 * Pow(40, 3), Ties});
  v.push_back({"near-ties", "the same in two inputs, rate and stopping distance changed by one of 8 factors from 1 - 3e-4 to 1 + 2e-3: distances and overshoots slightly to either side of the thresholds",
               4ull * 32 * 24 * 2 * Pow(20, 2), NearTies});
  v.push_back({"many-tries", "as endings-1 with end_of_stroke_max_iterations 640 and 1000 and stopping distances 1e-30, 1e-6 and .001; 2 springs more, hardly damped",
               (uint64_t)kAllSprings * 4 * 3 * 2 * Pow(18, 2), ManyTries});
  int len = thorough ? 60 : 6;
  v.push_back({"long", "Up as any of the inputs 2 to " + std::to_string(len + 1) + " of 48 strokes; smoothing on or off", params * kNumShapes * kNumTimings * len * 2,
               [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; 8 parameter sets",
               8 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; 48 parameter sets",
               12ull * kNumShapes * kNumTimings * 48, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C09", Make); }
