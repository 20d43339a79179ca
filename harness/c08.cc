// C08: the spring-and-drag model. Every result of the real modeler is compared
// with the model of ref.h, for all strokes over an alphabet up to a depth and
// for long strokes over a grid of parameters.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

struct Spring {
  float k, drag;
  double rate;
};
const Spring kSprings[] = {
    {11.f / 32400, 72.f, 180},  {11.f / 32400, 72.f, 173.3}, {11.f / 32400, 72.f, 61},
    {1.f / 4096, 64.f, 128},    {1e-4f, 150.f, 240},         {2e-3f, 20.f, 97},
    {.05f, 3.f, 33},            {11.f / 32400, 72.f, 1021}};
constexpr int kNumSprings = sizeof kSprings / sizeof *kSprings;

StrokeModelParams Params(int spring, int mode) {
  StrokeModelParams p = BaseParams();
  p.position_modeler_params.spring_mass_constant = kSprings[spring].k;
  p.position_modeler_params.drag_constant = kSprings[spring].drag;
  p.sampling_params.min_output_rate = kSprings[spring].rate;
  p.sampling_params.max_outputs_per_call = 3000;
  p.wobble_smoother_params.is_enabled = mode & 1;
  if (mode & 2) p.sampling_params.max_estimated_angle_to_traverse_per_input = .37;
  if (mode & 4) {
    p.stylus_state_modeler_params.use_stroke_normal_projection = true;
    p.stylus_state_modeler_params.min_input_samples = 4;
    p.stylus_state_modeler_params.min_sample_duration = Duration(.021);
  }
  p.prediction_params = sm::DisabledPredictorParams{};
  return p;
}

// All sequences of moves.
const float kDx[] = {0, .75f, -1.25f, .01f, 6};
const float kDy[] = {0, .5f, -.25f, -2.f, 1};
const double kDt[] = {0, 1 / 256., .0071, .0313};
constexpr int kMoves = 20;

void Sequences(uint64_t i, Ctx& ctx, int depth, bool narrow) {
  Pick pick(i);
  int spring = narrow ? pick(2) * 3 : pick(kNumSprings), mode = pick(narrow ? 4 : 8);
  int stylus = narrow ? 0 : pick(2);
  Conform c(Params(spring, mode), ctx, kMotion);
  c.ignore_catch_up = true;
  Vec2 p{2.5f, -1.25f};
  double t = 5;
  auto input = [&](ET e, int n) {
    Input in = In(e, p.x, p.y, t);
    if (stylus) in.pressure = .3f + .1f * n, in.tilt = .5f - .05f * n, in.orientation = 1.f * n;
    return in;
  };
  c.Update(input(ET::kDown, 0));
  bool moved = false;
  for (int d = 0; d < depth; ++d) {
    int m = pick(kMoves);
    p.x += kDx[m % 5];
    p.y += kDy[m % 5];
    t += kDt[m / 5];
    if (m % 5 == 0 && m / 5 == 0 && (!stylus || d == depth - 1)) {
      if (d < depth - 1) continue;  // a duplicate
    }
    if (m / 5) moved = true;
    c.Update(input(d == depth - 1 ? ET::kUp : ET::kMove, d + 1));
    if (!c.ok()) break;
  }
  if (moved) ctx.c.nontrivial++;
}

// Long strokes.
void Long(uint64_t i, Ctx& ctx, int len, int springs) {
  Pick pick(i);
  int spring = pick(springs), mode = pick(8), shape = pick(kNumShapes), timing = pick(kNumTimings);
  int stylus = pick(2) ? kAllKnown : kAllUnknown;
  Conform c(Params(spring, mode), ctx, kMotion);
  c.ignore_catch_up = true;
  for (const Input& in : MakeStroke(shape, timing, stylus, len))
    if (!c.Update(in)) break;
  ctx.c.nontrivial++;
}

// Very short and very long time steps.
struct StepSpring {
  Spring s;
  int first, n;
};
const double kSteps[] = {1e-9, 1e-7, 3e-6, 1e-4, .0171, .11, .7, 3, 40};
const StepSpring kStepSprings[] = {{{11.f / 32400, 72.f, 180}, 0, 6}, {{1e-6f, 900.f, 2000}, 0, 5},  {{1e-12f, 9e5f, 3e6}, 0, 4},
                                   {{.5f, 1.f, 4}, 0, 9},             {{2.f, .3f, .9}, 0, 9}, {{900.f, .01f, .06}, 2, 7}};
constexpr int kNumStepSprings = sizeof kStepSprings / sizeof *kStepSprings;
constexpr int kStepMoves = 4 * 9;
void Steps(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  const StepSpring& ss = kStepSprings[pick(kNumStepSprings)];
  int mode = pick(4);
  StrokeModelParams p = Params(0, mode);
  p.position_modeler_params.spring_mass_constant = ss.s.k;
  p.position_modeler_params.drag_constant = ss.s.drag;
  p.sampling_params.min_output_rate = ss.s.rate;
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  Vec2 pos{2.5f, -1.25f};
  double t = 0;
  c.Update(In(ET::kDown, pos.x, pos.y, t));
  for (int d = 0; d < depth; ++d) {
    int m = pick(4), st = pick(9);
    pos.x += kDx[m + 1];
    pos.y += kDy[m + 1];
    t += kSteps[ss.first + st % ss.n];
    if (!c.Update(In(d == depth - 1 ? ET::kUp : ET::kMove, pos.x, pos.y, t))) return;
  }
  ctx.c.nontrivial++;
}

// Two strokes on one modeler, scaled and shifted.
void Scales(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int spring = pick(kNumSprings), mode = pick(8), shape = pick(kNumShapes), timing = pick(kNumTimings);
  const float scale[] = {1e-3f, 100.f, 30000.f};
  float s = scale[pick(3)];
  Vec2 o = pick(2) ? Vec2{-7 * s, 13 * s} : Vec2{0, 0};
  StrokeModelParams p = Params(spring, mode);
  p.wobble_smoother_params.speed_floor *= s;
  p.wobble_smoother_params.speed_ceiling *= s;
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  for (int k = 0; k < 2; ++k) {
    for (Input in : MakeStroke((shape + k) % kNumShapes, timing, kAllKnown, len)) {
      in.position = {in.position.x * s + o.x, in.position.y * s + o.y};
      if (!c.Update(in)) return;
    }
  }
  ctx.c.nontrivial++;
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int mode = pick(8);
  StrokeModelParams p = Params(mode % 3 ? 0 : 5, mode);
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  if (Session(pick, c, p, thorough, false)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int spring = pick(kNumSprings), mode = pick(8);
  StrokeModelParams p = Params(spring, mode);
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (false && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and a parameter set decoded from its index; every result at or before an input's time is compared with the model; non-trivial: time passes in the stroke");
  AddAssumption("rounding: a value matches if it is within 8 times the largest distance between the float and the double run of the model so far, plus a few units in the last place of the operands; after a choice that is itself within rounding the rest of that stroke is given up (counted as skipped)");
  std::vector<Space> v;
  int d = thorough ? 4 : 3;
  v.push_back({"sequences", "all sequences of " + std::to_string(d) + " of 20 moves (5 displacements, 4 time steps) with the last one an Up; 8 springs and rates; smoothing, turning-angle limit and normal projection on or off; stylus values known or not",
               (uint64_t)kNumSprings * 8 * 2 * Pow(kMoves, d), [=](uint64_t i, Ctx& c) { Sequences(i, c, d, false); }});
  v.push_back({"deeper", "all sequences of " + std::to_string(d + 1) + " of the same moves; 2 springs, smoothing and turning-angle limit on or off",
               8 * Pow(kMoves, d + 1), [=](uint64_t i, Ctx& c) { Sequences(i, c, d + 1, true); }});
  v.push_back({"steps", "all sequences of " + std::to_string(d) + " of 4 displacements and time steps from 1e-9 to 40; 6 springs with rates from 0.06 to 3e6; smoothing and turning-angle limit on or off",
               (uint64_t)kNumStepSprings * 4 * Pow(kStepMoves, d), [=](uint64_t i, Ctx& c) { Steps(i, c, d); }});
  int len = thorough ? 300 : 60;
  v.push_back({"long", "8 shapes, 6 timings of " + std::to_string(len) + " inputs; the same parameters",
               (uint64_t)kNumSprings * 8 * kNumShapes * kNumTimings * 2, [=](uint64_t i, Ctx& c) { Long(i, c, len, kNumSprings); }});
  int el = thorough ? 10000 : 1500;
  v.push_back({"endurance", "the same strokes of " + std::to_string(el) + " inputs; 2 springs",
               2ull * 8 * kNumShapes * kNumTimings * 2, [=](uint64_t i, Ctx& c) { Long(i, c, el, 2); }});
  int l2 = thorough ? 100 : 25;
  v.push_back({"scales", "two strokes of " + std::to_string(l2) + " inputs one after the other; 3 scales, 2 offsets",
               (uint64_t)kNumSprings * 8 * kNumShapes * kNumTimings * 6, [=](uint64_t i, Ctx& c) { Scales(i, c, l2); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; 8 parameter sets",
               8 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; the same parameters",
               12ull * kNumShapes * kNumTimings * 64, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C08", Make); }
