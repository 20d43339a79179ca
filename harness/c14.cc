// C14: loop contraction mitigation, against the model of ref.h, and directly:
// every result lies between the spring model's (the same stroke with the
// strengths at 1) and the raw polyline.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

struct L {
  float lo, hi, at_lo, at_hi;
  double window;
  int samples;
};
const L kL[] = {{2, 60, .9f, .2f, .03, 3},   {0, 0, .5f, .5f, .02, 1},    {10, 10, .75f, .25f, 1 / 32., 2}, {0, 100, 1, 0, 1 / 64., 5},
                {5, 30, 1, 1, .05, 10},      {5, 30, 0, 0, .05, 4},      {1e3f, 1e4f, .6f, .1f, .1, 1},    {0, 1e-3f, 1, .3f, 1e-3, 1},
                {16, 48, .8f, .4f, 1e-6, 1}, {16, 48, 1, .5f, .2, 1}};
constexpr int kNumL = sizeof kL / sizeof *kL;
// for many inputs at short distances
const L kBig[] = {{2, 60, .9f, .2f, .2, 60}, {5, 30, .8f, .1f, .05, 150}, {0, 100, 1, 0, .5, 1}, {0, 40, .95f, .1f, 3, 500}};

StrokeModelParams Params(int l, int win, bool smooth, int predictor, bool on = true, const L* kL = ::kL) {
  StrokeModelParams p = BaseParams();
  p.sampling_params.min_output_rate = 173;
  p.sampling_params.max_outputs_per_call = 1000;
  p.wobble_smoother_params.is_enabled = smooth;
  auto& s = p.stylus_state_modeler_params;
  s.use_stroke_normal_projection = true;
  s.min_input_samples = win ? 2 : 8;
  s.min_sample_duration = Duration(win ? 1 / 64. : .06);
  auto& q = p.position_modeler_params.loop_contraction_mitigation_params;
  q.is_enabled = on;
  q.speed_lower_bound = kL[l].lo;
  q.speed_upper_bound = kL[l].hi;
  q.interpolation_strength_at_speed_lower_bound = kL[l].at_lo;
  q.interpolation_strength_at_speed_upper_bound = kL[l].at_hi;
  q.min_speed_sampling_window = Duration(kL[l].window);
  q.min_discrete_speed_samples = kL[l].samples;
  if (predictor == 0) p.prediction_params = sm::DisabledPredictorParams{};
  if (predictor == 1) p.prediction_params = sm::StrokeEndPredictorParams{};
  if (predictor == 2) p.prediction_params = BaseKalman();
  return p;
}

const float kDx[] = {0, .5f, -.25f, 1};
const float kDy[] = {.25f, 0, 1, -1.5f};
const double kDt[] = {0, 1 / 64., .0277};

void Sequences(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  int l = pick(kNumL), win = pick(2), on = pick(2);
  Conform c(Params(l, win, false, 1, on), ctx, kMotion | kTime);
  Vec2 p{1, 2};
  double t = 4;
  if (!c.Update(In(ET::kDown, p.x, p.y, t, .5f, .5f, .5f))) return;
  bool blended = false;
  for (int d = 0; d < depth; ++d) {
    int m = pick(12);
    p.x += kDx[m % 4];
    p.y += kDy[m % 4];
    t += kDt[m / 4];
    if (!c.Update(In(d == depth - 1 ? ET::kUp : ET::kMove, p.x, p.y, t, .5f, .5f, .5f))) return;
    if (c.ref().strength_now != 1) blended = true;
    if (d == 1 && !c.Predict()) return;
  }
  if (blended) ctx.c.nontrivial++;
}

void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int l = pick(kNumL), win = pick(2), smooth = pick(2), predictor = 1 + pick(2);
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const float scales[] = {1, .1f, 8};
  float scale = scales[pick(3)];
  int stylus = pick(2) ? kAllKnown : kAllUnknown;
  Conform c(Params(l, win, smooth, predictor), ctx, kMotion | kTime);
  bool blended = false;
  int k = 0;
  for (Input in : MakeStroke(shape, timing, stylus, len)) {
    in.position = {in.position.x * scale, in.position.y * scale};
    if (!c.Update(in)) return;
    if (c.ref().strength_now != 1) blended = true;
    if (in.event_type != ET::kUp && ++k % 4 == 0 && !c.Predict()) return;
  }
  if (blended) ctx.c.nontrivial++;
}

// Hundreds of speed samples in the window.
void Crowded(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int l = pick(4), win = pick(2), shape = pick(kNumShapes), timing = pick(kNumTimings);
  if (l == 3) len *= 2;
  const double fs[] = {5, 20};
  double f = fs[pick(2)];
  int stylus = pick(2) ? kAllKnown : kAllUnknown;
  Conform c(Params(l, win, false, 1, true, kBig), ctx, kMotion | kTime);
  bool blended = false;
  int k = 0;
  for (const Input& in : Dense(MakeStroke(shape, timing, stylus, len), f)) {
    if (!c.Update(in)) return;
    if (c.ref().strength_now != 1) blended = true;
    if (in.event_type != ET::kUp && ++k % 16 == 0 && !c.Predict()) return;
  }
  if (blended) ctx.c.nontrivial++;
}

// Without a model: the same stroke with strength s (constant), 0 and 1; the
// results with s are the blend, times and stylus values are the same.
void Blend(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int shape = pick(kNumShapes), timing = pick(kNumTimings), win = pick(2), stylus = pick(kNumStylus), predictor = pick(3);
  const float strengths[] = {0, .25f, .5f, 1};
  float s = strengths[pick(4)];
  StrokeModelParams ps[4];
  for (int j = 0; j < 4; ++j) {
    ps[j] = Params(4, win, false, predictor, j < 3);
    auto& q = ps[j].position_modeler_params.loop_contraction_mitigation_params;
    q.interpolation_strength_at_speed_lower_bound = q.interpolation_strength_at_speed_upper_bound = j == 0 ? s : j == 1 ? 0 : 1;
  }
  StrokeModeler m[4];
  for (int j = 0; j < 4; ++j)
    if (!m[j].Reset(ps[j]).ok()) return ctx.Fail("valid parameters rejected");
  Input last;
  bool first = true;
  double pos = 0, vel = 0, acc = 0;
  size_t seen = 0;
  for (const Input& in : MakeStroke(shape, timing, stylus, len)) {
    if (!first && in == last) continue;
    last = in;
    first = false;
    for (int pred = 0; pred < 2; ++pred) {
      if (pred && (in.event_type == ET::kUp || predictor == 0)) break;
      Results r[4];
      for (int j = 0; j < 4; ++j) {
        absl::Status st = pred ? m[j].Predict(r[j]) : m[j].Update(in, r[j]);
        if (!st.ok()) return ctx.Fail("%s: %s", Str(in).c_str(), Str(st).c_str());
      }
      ctx.c.transitions += 4;
      for (int j = 1; j < 4; ++j)
        if (r[j].size() != r[0].size())
          return ctx.Fail("%s: %zu results with one strength, %zu with another", Str(in).c_str(), r[0].size(), r[j].size());
      for (size_t k = 0; k < r[0].size(); ++k, ++seen) {
        ctx.c.compared++;
        const Result &a = r[0][k], &z = r[1][k], &o = r[2][k], &off = r[3][k];
        pos = std::max({pos, (double)std::fabs(z.position.x), (double)std::fabs(z.position.y), (double)std::fabs(o.position.x), (double)std::fabs(o.position.y)});
        vel = std::max({vel, (double)std::fabs(z.velocity.x), (double)std::fabs(z.velocity.y), (double)std::fabs(o.velocity.x), (double)std::fabs(o.velocity.y)});
        acc = std::max({acc, (double)std::fabs(z.acceleration.x), (double)std::fabs(z.acceleration.y), (double)std::fabs(o.acceleration.x), (double)std::fabs(o.acceleration.y)});
        if (!SameF(a.time.Value(), o.time.Value()) || !SameF(a.pressure, o.pressure) || !SameF(a.tilt, o.tilt) || !SameF(a.orientation, o.orientation))
          return ctx.Fail("%s: time or stylus values depend on the strength: %s, %s", Str(in).c_str(), Str(a).c_str(), Str(o).c_str());
        if (!SameF(off.time.Value(), o.time.Value()) || !SameF(off.pressure, o.pressure) || !SameF(off.tilt, o.tilt) || !SameF(off.orientation, o.orientation))
          return ctx.Fail("%s: time or stylus values depend on the mitigation: %s, %s", Str(in).c_str(), Str(off).c_str(), Str(o).c_str());
        bool start = seen <= 1;  // strength 1 until the first sample
        auto near = [&](double x, double want, double scale) { return std::fabs(x - want) <= 2e-5 * scale + 1e-9; };
        double w = start ? 1 : s;
        auto mix = [&](double zz, double oo) { return zz + (oo - zz) * w; };
        if (!near(a.position.x, mix(z.position.x, o.position.x), pos) || !near(a.position.y, mix(z.position.y, o.position.y), pos) ||
            !near(a.velocity.x, mix(z.velocity.x, o.velocity.x), vel) || !near(a.velocity.y, mix(z.velocity.y, o.velocity.y), vel) ||
            !near(a.acceleration.x, mix(z.acceleration.x, o.acceleration.x), acc) || !near(a.acceleration.y, mix(z.acceleration.y, o.acceleration.y), acc))
          return ctx.Fail("%s: result %zu with strength %g is %s; with 0 %s and with 1 %s", Str(in).c_str(), k, s, Str(a).c_str(), Str(z).c_str(), Str(o).c_str());
        if (!near(off.position.x, o.position.x, pos) || !near(off.position.y, o.position.y, pos) || !near(off.velocity.x, o.velocity.x, vel) ||
            !near(off.velocity.y, o.velocity.y, vel) || !near(off.acceleration.x, o.acceleration.x, acc) || !near(off.acceleration.y, o.acceleration.y, acc))
          return ctx.Fail("%s: result %zu is %s with the mitigation off and %s at strength 1", Str(in).c_str(), k, Str(off).c_str(), Str(o).c_str());
        ctx.State(HashResult(5, a));
      }
    }
  }
  ctx.c.nontrivial++;
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int k = pick(kNumL);
  StrokeModelParams p = Params(k, k % 2, k % 3 == 1, 1 + k % 2);
  Conform c(p, ctx, kMotion | kTime);
  if (Session(pick, c, p, thorough, false)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(20);
  StrokeModelParams p = Params(k % kNumL, k / kNumL, k % 3 == 1, 1 + k % 2);
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kMotion | kTime);
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (true && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kMotion | kTime);
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and the mitigation's parameters decoded from its index; non-trivial: a strength other than 1 is applied (sequences, long); in the space blend every case that ran to its end");
  AddAssumption("rounding: as for C08; after an ambiguous projection the rest of the stroke is given up if the implementation projects differently, because the speeds then differ");
  std::vector<Space> v;
  int d = thorough ? 5 : 4;
  v.push_back({"sequences", "all sequences of " + std::to_string(d) + " of 12 moves (4 displacements, 3 time steps), a prediction after the second; 10 strength and speed settings, 2 stylus windows, mitigation on and off",
               (uint64_t)kNumL * 2 * 2 * Pow(12, d), [=](uint64_t i, Ctx& c) { Sequences(i, c, d); }});
  int len = thorough ? 200 : 60;
  v.push_back({"long", "48 strokes of " + std::to_string(len) + " inputs, 3 scales, stylus values known or not, smoothing on or off, 2 predictors (every fourth input)",
               (uint64_t)kNumL * 8 * kNumShapes * kNumTimings * 3 * 2, [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  v.push_back({"blend", "48 strokes of " + std::to_string(len) + " inputs, 6 stylus signals, 2 windows, 3 predictors, 4 constant strengths, against strengths 0 and 1 and against the mitigation off",
               (uint64_t)kNumShapes * kNumTimings * 2 * kNumStylus * 3 * 4, [=](uint64_t i, Ctx& c) { Blend(i, c, len); }});
  int cl = thorough ? 1200 : 300;
  v.push_back({"crowded", "48 strokes of " + std::to_string(cl) + " inputs, 5 and 20 times as fast; windows of up to .5 s and 150 samples, and 3 s and 500 samples with twice as many inputs; stylus values known or not, 2 stylus windows",
               4ull * 2 * kNumShapes * kNumTimings * 4, [=](uint64_t i, Ctx& c) { Crowded(i, c, cl); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; 10 strength and speed settings",
               10 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; 10 strength and speed settings, 2 stylus windows",
               12ull * kNumShapes * kNumTimings * 20, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C14", Make); }
