// C12: pressure, tilt and orientation, against the model of ref.h, and the
// bounds that hold whatever the projection is.
#include "ref.h"
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

struct Proj {
  bool normal;
  int max_samples, min_samples;
  double min_duration;
};
const Proj kProj[] = {{false, 10, -1, -1}, {false, 1, -1, -1},      {false, 2, -1, -1},   {false, 3, 7, .5},
                      {true, -1, 1, 1 / 64.}, {true, 1, 2, 1 / 32.}, {true, 3, 4, .0213}, {true, 10, 3, 1 / 16.}, {true, 10, 10, .05},
                      // for many inputs
                      {false, 100, -1, -1},   {true, -1, 60, .3},      {true, 5, 150, .05}};
constexpr int kNumProj = 9, kNumBig = 3;

struct Spring {
  float k, drag;
  double rate;
};
// The last ones are slow: the tip lags several inputs behind.
const Spring kSprings[] = {{11.f / 32400, 72.f, 173}, {1.f / 4096, 64.f, 64}, {4e-3f, 30.f, 90}, {.03f, 12.f, 60}};

StrokeModelParams Params(int proj, int spring, bool smooth, int predictor) {
  StrokeModelParams p = BaseParams();
  auto& q = p.stylus_state_modeler_params;
  q.use_stroke_normal_projection = kProj[proj].normal;
  q.max_input_samples = kProj[proj].max_samples;
  q.min_input_samples = kProj[proj].min_samples;
  q.min_sample_duration = Duration(kProj[proj].min_duration);
  p.position_modeler_params.spring_mass_constant = kSprings[spring].k;
  p.position_modeler_params.drag_constant = kSprings[spring].drag;
  p.sampling_params.min_output_rate = kSprings[spring].rate;
  p.sampling_params.max_outputs_per_call = 1000;
  p.wobble_smoother_params.is_enabled = smooth;
  if (predictor == 0) p.prediction_params = sm::DisabledPredictorParams{};
  if (predictor == 1) p.prediction_params = sm::StrokeEndPredictorParams{};
  if (predictor == 2) p.prediction_params = BaseKalman();
  return p;
}

// Bounds that need no model of the projection.
struct Bounds {
  bool unknown[3] = {false, false, false};
  float lo[3], hi[3];
  std::vector<Input> all;
  void Add(const Input& in) {
    float v[3] = {in.pressure, in.tilt, in.orientation};
    for (int i = 0; i < 3; ++i) {
      if (!(v[i] >= 0)) unknown[i] = true;
      if (all.empty()) lo[i] = hi[i] = v[i];
      lo[i] = std::min(lo[i], v[i]);
      hi[i] = std::max(hi[i], v[i]);
    }
    all.push_back(in);
  }
  void Check(const Results& out, Ctx& ctx, const char* what) const {
    for (const Result& r : out) {
      float v[3] = {r.pressure, r.tilt, r.orientation};
      static const char* n[] = {"pressure", "tilt", "orientation"};
      for (int i = 0; i < 3; ++i) {
        if (unknown[i] && v[i] != -1)
          return ctx.Fail("%s: %s is %.9g after an unknown value", what, n[i], v[i]);
        if (unknown[i]) continue;
        if (i < 2 && !(v[i] >= lo[i] - 1e-6f * (1 + hi[i]) && v[i] <= hi[i] + 1e-6f * (1 + hi[i])))
          return ctx.Fail("%s: %s is %.9g, the inputs' are within [%.9g, %.9g]", what, n[i], v[i], lo[i], hi[i]);
        if (i == 2 && !(v[i] >= 0 && v[i] <= (float)(2 * kPiD)))
          return ctx.Fail("%s: orientation %.9g is not within [0, 2 pi)", what, v[i]);
      }
    }
  }
};

class Run {
 public:
  Run(const StrokeModelParams& p, Ctx& ctx) : c_(p, ctx, kStylus), ctx_(ctx) {}
  bool Update(const Input& in, bool predict) {
    if (!b_.all.empty() && b_.all.back() == in) return true;
    if (in.event_type == ET::kDown) {
      b_ = Bounds();
      down_known_ = true;
    }
    if (!c_.Update(in)) return false;
    if (!c_.accepted()) return true;
    b_.Add(in);
    if (in.event_type == ET::kDown) {
      if (c_.out().size() != 1 || !SameF(c_.out()[0].pressure, in.pressure) || !SameF(c_.out()[0].tilt, in.tilt) ||
          !SameF(c_.out()[0].orientation, in.orientation))
        ctx_.Fail("the Down's result does not repeat its stylus values");
    } else {
      b_.Check(c_.out(), ctx_, Str(in).c_str());
    }
    if (predict && in.event_type != ET::kUp) {
      if (!c_.Predict()) return false;
      b_.Check(c_.out(), ctx_, "Predict");
    }
    return c_.ok();
  }

 private:
  Conform c_;
  Ctx& ctx_;
  Bounds b_;
  bool down_known_ = false;
};

// Which values are unknown in which input.
void Unknown(uint64_t i, Ctx& ctx, int inputs) {
  Pick pick(i);
  int proj = pick(2) ? 0 : 6, predictor = pick(2);
  Run r(Params(proj, 0, false, predictor), ctx);
  Vec2 p{1, 2};
  bool some = false, all = true;
  for (int k = 0; k < inputs; ++k) {
    Input in = In(k == 0 ? ET::kDown : k == inputs - 1 ? ET::kUp : ET::kMove, p.x, p.y, 4 + k * .013);
    float* f[] = {&in.pressure, &in.tilt, &in.orientation};
    for (int j = 0; j < 3; ++j) {
      int m = pick(k == 0 ? 4 : 3);
      float known = (k + j) % 3 == 1 ? 0.f : (k + j) % 3 == 2 && k % 2 ? -0.f : .4f + .1f * k + .05f * j;  // 0 is known
      *f[j] = m == 0 ? known : m == 1 ? -1 : (k ? k % 2 : m == 3) ? kNaN : -.25f;
      (m ? some : all) = m != 0;
    }
    p.x += .7f;
    p.y -= .3f * k;
    if (!r.Update(in, predictor)) return;
  }
  if (some) ctx.c.nontrivial++;
}

// Positions and times: which inputs are in the window, where the tip projects.
const float kDx[] = {0, 1, -1.5f, .5f};
const float kDy[] = {0, .25f, .5f, -2};
const double kDt[] = {0, 1 / 64., .0277};
constexpr int kMoves = 12;

void Windows(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  int proj = pick(kNumProj), spring = pick(4);
  Run r(Params(proj, spring, false, 0), ctx);
  Vec2 p{1, 2};
  double t = 4;
  r.Update(In(ET::kDown, p.x, p.y, t, .1f, 1.f, 0.5f), false);
  for (int d = 0; d < depth; ++d) {
    int m = pick(kMoves);
    p.x += kDx[m % 4];
    p.y += kDy[m % 4];
    t += kDt[m / 4];
    // values all different, so that the window shows
    if (!r.Update(In(d == depth - 1 ? ET::kUp : ET::kMove, p.x, p.y, t, .2f + .13f * d, 1.1f - .17f * d, .5f + 1.1f * d), false)) return;
  }
  ctx.c.nontrivial++;
}

// Orientations around the circle.
constexpr int kOrients = 17;
void Orientations(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const float o[] = {0, 3.1365f, 3.1467f, 5.02f, .3f, 1.5707964f, 3.f, 3.1415925f, 3.1415927f, 3.1415930f, 3.5f, 4.712389f, 6.2f, 6.2831850f, 6.2831855f, 100.f, 1e6f};
  int proj = pick(2) ? 0 : 6, spring = pick(4);
  Run r(Params(proj, spring, false, 1), ctx);
  for (int k = 0; k < 4; ++k)
    if (!r.Update(In(k == 0 ? ET::kDown : k == 3 ? ET::kUp : ET::kMove, .8f * k, .1f * k * k, 1 + k * .017, .5f, .5f, o[pick(kOrients)]), k == 2)) return;
  ctx.c.nontrivial++;
}

void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int proj = pick(kNumProj), spring = pick(4), smooth = pick(2), predictor = 1 + pick(2);
  int shape = pick(kNumShapes), timing = pick(kNumTimings), stylus = pick(kNumStylus);
  Run r(Params(proj, spring, smooth, predictor), ctx);
  int k = 0;
  for (const Input& in : MakeStroke(shape, timing, stylus, len))
    if (!r.Update(in, ++k % 3 == 0)) return;
  ctx.c.nontrivial++;
}

// Hundreds of inputs in the window.
void Crowded(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int proj = kNumProj + pick(kNumBig), spring = pick(2) * 3;
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const double fs[] = {1, 5, 20};
  double f = fs[pick(3)];
  int stylus = pick(2) ? kWrapOrient : kAllKnown;
  Run r(Params(proj, spring, false, 1), ctx);
  int k = 0;
  for (const Input& in : Dense(MakeStroke(shape, timing, stylus, len), f))
    if (!r.Update(in, ++k % 16 == 0)) return;
  ctx.c.nontrivial++;
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int k = pick(kNumProj);
  StrokeModelParams p = Params(k, k % 4, k % 2, 1 + k % 2);
  Conform c(p, ctx, kStylus);
  if (Session(pick, c, p, thorough, false)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(36);
  StrokeModelParams p = Params(k % kNumProj, k / 9, k % 2, 1 + k % 2);
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Conform c(p, ctx, kStylus);
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (true && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Conform c(p, ctx, kStylus);
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke with stylus values and the stylus parameters decoded from its index; every result and prediction is compared with the model and with the bounds; non-trivial: in the space unknown, some value is unknown; elsewhere every case that ran to its end");
  AddAssumption("rounding: as for C08; where the tip is, up to rounding, equally well projected to several points, each of them is accepted");
  std::vector<Space> v;
  int n = thorough ? 5 : 4;
  v.push_back({"unknown", "every pattern of known (including 0 and -0), -1 and other negative or NaN pressure, tilt and orientation over " + std::to_string(n) + " inputs; closest-point and normal projection; with and without predictions",
               4 * 64 * Pow(27, n - 1), [=](uint64_t i, Ctx& c) { Unknown(i, c, n); }});
  int d = thorough ? 6 : 4;
  v.push_back({"windows", "all sequences of " + std::to_string(d) + " of 12 moves (4 displacements, 3 time steps); 9 projection settings, 4 springs",
               (uint64_t)kNumProj * 4 * Pow(kMoves, d), [=](uint64_t i, Ctx& c) { Windows(i, c, d); }});
  v.push_back({"orientations", "all sequences of 4 of 17 orientations around, next to and beyond 0, pi and 2 pi; 2 projections, 4 springs", 8 * Pow(kOrients, 4), Orientations});
  int len = thorough ? 200 : 40;
  v.push_back({"long", "8 shapes, 6 timings, 6 stylus signals of " + std::to_string(len) + " inputs, predictions at every third; 9 projection settings, 4 springs, smoothing on or off, 2 predictors",
               (uint64_t)kNumProj * 4 * 4 * kNumShapes * kNumTimings * kNumStylus, [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  int cl = thorough ? 1000 : 300;
  v.push_back({"crowded", "48 strokes of " + std::to_string(cl) + " inputs at 3 densities, 2 stylus signals; windows of 100, of 60 and .3 s, and of 150 inputs; 2 springs",
               (uint64_t)kNumBig * 2 * kNumShapes * kNumTimings * 3 * 2, [=](uint64_t i, Ctx& c) { Crowded(i, c, cl); }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; 9 projection settings",
               9 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; 9 projection settings, 4 springs",
               12ull * kNumShapes * kNumTimings * 36, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C12", Make); }
