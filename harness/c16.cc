// C16: units, origin of time and axis directions. Two modelers run side by side,
// one of them in other units.
#include "units.h"

using namespace vx;

namespace {

bool Near(double a, double b, double scale) { return SameF(a, b) || std::fabs(a - b) <= 1e-4 * scale; }

// Whether two results are the same up to rounding, given the largest values of
// their kinds so far (updated here).
struct Scales {
  double p = 0, v = 0, a = 0;
  static void Grow(double& s, Vec2 v) {
    if (std::isfinite(v.x) && std::isfinite(v.y)) s = std::max({s, (double)std::fabs(v.x), (double)std::fabs(v.y)});
  }
  bool Same(const Result& want, const Result& r, double time) {
    Grow(p, want.position);
    Grow(v, want.velocity);
    Grow(a, want.acceleration);
    return SameResult(want, r) ||
           (Near(want.position.x, r.position.x, p) && Near(want.position.y, r.position.y, p) &&
            Near(want.velocity.x, r.velocity.x, v) && Near(want.velocity.y, r.velocity.y, v) &&
            Near(want.acceleration.x, r.acceleration.x, a) && Near(want.acceleration.y, r.acceleration.y, a) &&
            (SameF(want.time.Value(), r.time.Value()) || std::fabs(want.time.Value() - r.time.Value()) <= time) &&
            Near(want.pressure, r.pressure, 1) && Near(want.tilt, r.tilt, 1) &&
            (SameF(want.orientation, r.orientation) || std::fabs(std::remainder(want.orientation - r.orientation, 2 * kPiD)) <= 1e-3));
  }
};

class Both {
 public:
  Both(const StrokeModelParams& p, const Units& u, Ctx& ctx) : p_(p), u_(u), ctx_(ctx) {
    absl::Status a = m_.Reset(p), b = n_.Reset(Convert(p, u));
    if (!a.ok() || !b.ok()) ctx.Fail("Reset: %s, in other units %s", Str(a).c_str(), Str(b).c_str());
  }
  bool Update(const Input& in) {
    Results a, b;
    Input other = Convert(in, u_);
    absl::Status sa = m_.Update(in, a), sb = n_.Update(other, b);
    calls_.push_back({true, in});
    ctx_.c.transitions++;
    ctx_.Log("Update %s: %s, %zu results; %s: %s, %zu results", Str(in).c_str(), Str(sa).c_str(), a.size(),
             Str(other).c_str(), Str(sb).c_str(), b.size());
    return Compare(Str(in), sa, sb, a, b);
  }
  bool Predict() {
    Results a, b;
    absl::Status sa = m_.Predict(a), sb = n_.Predict(b);
    calls_.push_back({false, Input()});
    ctx_.c.transitions++;
    ctx_.Log("Predict: %s, %zu results; %s, %zu results", Str(sa).c_str(), a.size(), Str(sb).c_str(), b.size());
    return Compare("Predict", sa, sb, a, b);
  }

 private:
  bool Compare(const std::string& what, const absl::Status& sa, const absl::Status& sb, const Results& a, const Results& b) {
    ctx_.State(HashResults(b));
    if (sa.code() != sb.code()) {
      if (Sensitive()) return Skip();
      ctx_.Fail("%s: %s, in other units (%s) %s", what.c_str(), Str(sa).c_str(), u_.name.c_str(), Str(sb).c_str());
      return false;
    }
    if (a.size() != b.size()) {
      if (Sensitive()) return Skip();
      ctx_.Fail("%s: %zu results, in other units (%s) %zu", what.c_str(), a.size(), u_.name.c_str(), b.size());
      return false;
    }
    for (size_t i = 0; i < a.size(); ++i) {
      Result want = Convert(a[i], u_);
      ctx_.c.compared++;
      if (ctx_.verbose) ctx_.Log("   %s\n   %s converted\n   %s", Str(a[i]).c_str(), Str(want).c_str(), Str(b[i]).c_str());
      if (scales_.Same(want, b[i], 1e-6 / p_.sampling_params.min_output_rate * u_.t)) continue;
      if (Sensitive()) return Skip();
      ctx_.Fail("%s: result %zu is %s, i.e. %s in other units (%s), but there it is %s", what.c_str(), i, Str(a[i]).c_str(), Str(want).c_str(),
                u_.name.c_str(), Str(b[i]).c_str());
      return false;
    }
    if (a.size() > 1) ctx_.c.nontrivial++;
    return true;
  }
  bool Skip() {
    ctx_.c.skipped++;
    return false;
  }
  // Whether rounding alone makes such a difference in this stroke: the original
  // stroke, moved by about a unit in the last place, also differs.
  bool Sensitive() {
    for (int k = 0; k < 8; ++k) {
      StrokeModeler m, n;
      (void)m.Reset(p_);
      (void)n.Reset(p_);
      Scales s;
      int j = 0;
      for (const Call& c : calls_) {
        Results a, b;
        absl::Status sa, sb;
        if (c.update) {
          Input in = c.in;
          ++j;
          float e = 1.2e-7f * (1 + k / 4);
          in.position.x *= 1 + ((j >> (k % 3)) & 1 ? e : k & 1 ? -e : 0);
          in.position.y *= 1 - ((j >> (k % 2)) & 1 ? e : k & 2 ? -e : 0);
          sa = m.Update(c.in, a);
          sb = n.Update(in, b);
        } else {
          sa = m.Predict(a);
          sb = n.Predict(b);
        }
        if (sa.code() != sb.code() || a.size() != b.size()) return true;
        for (size_t i = 0; i < a.size(); ++i)
          if (!s.Same(a[i], b[i], 1e-6 / p_.sampling_params.min_output_rate)) return true;
      }
    }
    return false;
  }

  struct Call {
    bool update;
    Input in;
  };
  const StrokeModelParams p_;
  const Units u_;
  Ctx& ctx_;
  StrokeModeler m_, n_;
  Scales scales_;
  std::vector<Call> calls_;
};

// Times that can be shifted exactly.
double Dyadic(double t) { return std::round(t * 8192) / 8192; }

std::vector<Config> Configs() {
  std::vector<Config> v = StageConfigs();
  StrokeModelParams p = BaseParams();
  p.wobble_smoother_params.is_enabled = false;
  p.sampling_params.max_outputs_per_call = 9;
  v.push_back({"plain+limit", p});
  p = BaseParams();
  p.stylus_state_modeler_params.use_stroke_normal_projection = true;
  p.stylus_state_modeler_params.min_input_samples = 3;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.02);
  p.sampling_params.max_estimated_angle_to_traverse_per_input = .2;
  v.push_back({"normal+angle", p});
  // All thresholds within the alphabet's reach.
  p = BaseParams();
  p.wobble_smoother_params.speed_floor = 20;
  p.wobble_smoother_params.speed_ceiling = 150;
  EnableLoopMitigation(p);
  p.position_modeler_params.loop_contraction_mitigation_params.speed_lower_bound = 10;
  p.position_modeler_params.loop_contraction_mitigation_params.speed_upper_bound = 150;
  KalmanPredictorParams k = BaseKalman();
  k.min_stable_iteration = 2;
  k.confidence_params.desired_number_of_samples = 3;
  k.confidence_params.max_estimation_distance = 5;
  k.confidence_params.max_linear_deviation = 40;
  p.prediction_params = k;
  v.push_back({"thresholds", p});
  return v;
}
constexpr int kConfigs = 9, kLongConfigs = kConfigs + kAllStages;

const float kDx[] = {0, .7f, -1.3f, .02f};
const float kDy[] = {.4f, .1f, 1.1f, -.03f};
const double kDt[] = {0, .0081, .021, .3};

void Sequences(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  static const std::vector<Units> units = AllUnits();
  static const std::vector<Config> configs = Configs();
  const Units& u = units[pick(kUnits)];
  const Config& c = configs[pick(kConfigs)];
  int stylus = pick(2);
  StrokeModelParams p = c.p;
  if (u.shift != 0) p.sampling_params.min_output_rate = 128;
  if (u.Reflects() && c.p.stylus_state_modeler_params.use_stroke_normal_projection) return;
  Both b(p, u, ctx);
  Vec2 q{1, 2};
  double t = 4;
  auto input = [&](ET e, int k) { return stylus ? In(e, q.x, q.y, t, .3f + .1f * k, .2f + .2f * k, .5f + 1.7f * k) : In(e, q.x, q.y, t); };
  bool predict = !std::holds_alternative<sm::DisabledPredictorParams>(c.p.prediction_params);
  if (!b.Update(input(ET::kDown, 0))) return;
  for (int d = 0; d < depth; ++d) {
    int k = pick(4);
    q.x += kDx[k];
    q.y += kDy[k];
    t = Dyadic(t + kDt[pick(4)]);
    if (!b.Update(input(d + 1 == depth ? ET::kUp : ET::kMove, k))) return;
    if (predict && d + 1 < depth && !b.Predict()) return;
  }
}

void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  static const std::vector<Units> units = AllUnits();
  static const std::vector<Config> configs = [] {
    std::vector<Config> v = Configs();
    for (auto& c : AllStages()) v.push_back(c);
    return v;
  }();
  const Units& u = units[pick(kUnits)];
  const Config& c = configs[pick(kLongConfigs)];
  int shape = pick(kNumShapes), timing = pick(kNumTimings), stylus = pick(kNumStylus);
  StrokeModelParams p = c.p;
  if (u.shift != 0) p.sampling_params.min_output_rate = 128;
  if (u.Reflects() && c.p.stylus_state_modeler_params.use_stroke_normal_projection) return;
  Both b(p, u, ctx);
  bool predict = !std::holds_alternative<sm::DisabledPredictorParams>(c.p.prediction_params);
  for (Input in : MakeStroke(shape, timing, stylus, len)) {
    in.time = Time(Dyadic(in.time.Value()));
    if (!b.Update(in)) return;
    if (predict && in.event_type != ET::kUp && !b.Predict()) return;
  }
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke, a configuration and a change of units decoded from its index, run by two modelers side by side; non-trivial counts the calls with several results");
  AddAssumption("units change by powers of two and times are multiples of 2^-13 (the output rate a power of two if times are shifted), so that converting is exact; results must then agree exactly, or up to 1e-4 of the largest value of their kind");
  std::vector<Space> v;
  int d = thorough ? 4 : 3;
  v.push_back({"sequences", "all sequences of a Down, " + std::to_string(d - 1) + " Moves and an Up over 4 displacements and 4 time steps, predictions after each; 18 changes of units, 9 configurations, stylus values known or not",
               (uint64_t)kUnits * kConfigs * 2 * Pow(16, d), [=](uint64_t i, Ctx& c) { Sequences(i, c, d); }});
  int len = thorough ? 300 : 60;
  v.push_back({"long", "48 strokes of " + std::to_string(len) + " inputs and 6 stylus signals with predictions after each input; 18 changes of units, 45 configurations",
               (uint64_t)kUnits * kLongConfigs * kNumShapes * kNumTimings * kNumStylus, [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C16", Make); }
