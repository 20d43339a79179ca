// C13: wobble smoothing, against the model of ref.h.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

struct W {
  double timeout;
  float floor, ceiling;
};
const W kW[] = {{1 / 16., 1.31f, 40.f}, {1 / 32., 16, 64},   {1 / 16., 0, 0},        {1 / 16., 32, 32},
                {.04, 0, 100},          {1 / 64., 1e4f, 1e5f}, {.0123, 10, 10.5f},   {3 / 64., 16, 16},
                {1e-4, 5, 80},          {10, 1000, 2000}};
constexpr int kNumW = sizeof kW / sizeof *kW;

StrokeModelParams Params(int w, int spring) {
  StrokeModelParams p = BaseParams();
  p.wobble_smoother_params.timeout = Duration(kW[w].timeout);
  p.wobble_smoother_params.speed_floor = kW[w].floor;
  p.wobble_smoother_params.speed_ceiling = kW[w].ceiling;
  // With the second spring, the tip is exactly at the smoothed position after
  // steps of 1/64.
  p.position_modeler_params.spring_mass_constant = spring == 1 ? 1.f / 4096 : 11.f / 32400;
  p.position_modeler_params.drag_constant = spring == 1 ? 64 : 72;
  p.sampling_params.min_output_rate = spring == 1 ? 64 : 173;
  p.sampling_params.max_outputs_per_call = 1000;
  if (spring == 2) p.wobble_smoother_params.is_enabled = false;
  p.prediction_params = sm::DisabledPredictorParams{};
  return p;
}

const float kDx[] = {0, .5f, -.75f, 0, 3};
const float kDy[] = {0, 0, 1, .25f, -4};
const double kDt[] = {0, 1 / 64., 3 / 64., 1 / 16., .0177};
constexpr int kMoves = 25;

void Sequences(uint64_t i, Ctx& ctx, int depth, bool narrow) {
  Pick pick(i);
  const int ws[] = {0, 1, 3};
  int w = narrow ? ws[pick(3)] : pick(kNumW), spring = pick(narrow ? 2 : 3);
  if (spring == 2 && w > 1) return;
  Conform c(Params(w, spring), ctx, kMotion);
  c.ignore_catch_up = true;
  Vec2 p{2, -1};
  double t = 5;
  c.Update(In(ET::kDown, p.x, p.y, t));
  bool smoothed = false;
  for (int d = 0; d <= depth; ++d) {
    // the Up comes with the move of the first step again, in reverse
    int m = d < depth ? pick(kMoves) : 8;
    p.x += kDx[m % 5];
    p.y += kDy[m % 5];
    t += kDt[m / 5];
    if (!c.Update(In(d == depth ? ET::kUp : ET::kMove, p.x, p.y, t))) break;
    auto q = c.ref().corrected;
    if (q.x != p.x || q.y != p.y) smoothed = true;
  }
  if (smoothed) ctx.c.nontrivial++;
}

void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int w = pick(kNumW), spring = pick(3), shape = pick(kNumShapes), timing = pick(kNumTimings);
  const float scales[] = {1, .05f, 40, 1000};
  float scale = scales[pick(4)];
  int twice = pick(2);
  Conform c(Params(w, spring), ctx, kMotion);
  c.ignore_catch_up = true;
  bool smoothed = false;
  for (int k = 0; k <= twice; ++k)
    for (Input in : MakeStroke((shape + k) % kNumShapes, timing, kAllUnknown, len)) {
      in.position = {in.position.x * scale, in.position.y * scale};
      if (!c.Update(in)) return;
      auto q = c.ref().corrected;
      if (q.x != in.position.x || q.y != in.position.y) smoothed = true;
    }
  if (smoothed) ctx.c.nontrivial++;
}

// Hundreds of inputs within the window.
void Crowded(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int w = pick(kNumW), spring = pick(2), shape = pick(kNumShapes), timing = pick(kNumTimings);
  const double fs[] = {8, 40};
  double f = fs[pick(2)];
  Conform c(Params(w, spring), ctx, kMotion);
  c.ignore_catch_up = true;
  bool smoothed = false;
  for (const Input& in : Dense(MakeStroke(shape, timing, kAllUnknown, len), f)) {
    if (!c.Update(in)) return;
    auto q = c.ref().corrected;
    if (q.x != in.position.x || q.y != in.position.y) smoothed = true;
  }
  if (smoothed) ctx.c.nontrivial++;
}

// Constant speeds at and around the bounds.
void Speeds(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  StrokeModelParams p = Params(0, pick(2));
  const float b[] = {0, 8, 16, 24};
  int lo = pick(4), hi = pick(4);
  if (hi < lo) return;
  p.wobble_smoother_params.speed_floor = b[lo];
  p.wobble_smoother_params.speed_ceiling = b[hi];
  const double to[] = {1 / 64., 1 / 32., 1 / 16.};
  p.wobble_smoother_params.timeout = Duration(to[pick(3)]);
  const float sp[] = {0, 4, 8, 12, 16, 20, 24, 28};
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  Vec2 q{1, 1};
  double t = 3;
  c.Update(In(ET::kDown, q.x, q.y, t));
  bool smoothed = false;
  for (int m = 0; m < 4; ++m) {
    float s = sp[pick(8)];
    int n = m == 3 ? 3 : 1;
    for (int k = 0; k < n; ++k) {
      (k % 2 ? q.x : q.y) += s / 64;
      t += 1 / 64.;
      if (!c.Update(In(ET::kMove, q.x, q.y, t))) return;
      auto r = c.ref().corrected;
      if (r.x != q.x || r.y != q.y) smoothed = true;
    }
  }
  c.Update(In(ET::kUp, q.x + 2, q.y - 3, t + 1 / 64.));
  if (smoothed) ctx.c.nontrivial++;
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int k = pick(kNumW);
  StrokeModelParams p = Params(k, k % 2);
  if (k % 3) p.prediction_params = sm::StrokeEndPredictorParams{};
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  if (Session(pick, c, p, thorough, false)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(20);
  StrokeModelParams p = Params(k % kNumW, k / kNumW);
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (false && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kMotion);
  c.ignore_catch_up = true;
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and the smoother's parameters decoded from its index; every result is compared with the model; non-trivial: a smoothed position differs from the raw one");
  AddAssumption("rounding: as for C08");
  std::vector<Space> v;
  int d = thorough ? 4 : 3;
  v.push_back({"sequences", "all sequences of " + std::to_string(d) + " of 25 Moves (5 displacements, 5 time steps incl. 0 and the window length), then an Up; 10 windows and speed ranges, smoothing off, 2 springs",
               (uint64_t)kNumW * 3 * Pow(kMoves, d), [=](uint64_t i, Ctx& c) { Sequences(i, c, d, false); }});
  v.push_back({"deeper", "all sequences of " + std::to_string(d + 1) + " of the same Moves, then an Up; 3 windows and speed ranges, 2 springs",
               6 * Pow(kMoves, d + 1), [=](uint64_t i, Ctx& c) { Sequences(i, c, d + 1, true); }});
  v.push_back({"speeds", "4 successive speeds of 8, at, below, between and above the bounds; 10 speed ranges incl. floor = ceiling, 3 windows, 2 springs",
               2ull * 16 * 3 * Pow(8, 4), Speeds});
  int len = thorough ? 1500 : 150;
  v.push_back({"long", "one or two strokes of 35, " + std::to_string(len) + " inputs, 4 scales, the same parameters",
               (uint64_t)kNumW * 3 * kNumShapes * kNumTimings * 8, [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  int cl = thorough ? 3000 : 500;
  v.push_back({"crowded", "48 strokes of " + std::to_string(cl) + " inputs, 8 and 40 times as fast (hundreds of inputs in the window), the same parameters",
               (uint64_t)kNumW * 2 * kNumShapes * kNumTimings * 2, [=](uint64_t i, Ctx& c) { Crowded(i, c, cl); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; 10 windows and speed ranges",
               10 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; 10 windows and speed ranges, 2 springs",
               12ull * kNumShapes * kNumTimings * 20, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C13", Make); }
