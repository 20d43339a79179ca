// C15: which parameters are accepted, against an independent statement of the
// documented constraints, over products of boundary values.
#include <algorithm>
#include <climits>
#include <memory>

#include "fields.h"

using namespace vx;

namespace {

// ------------------------------------------------------------ the constraints

bool Fin(double v) { return v - v == 0; }
bool Pos(double v) { return Fin(v) && v > 0; }
bool NonNeg(double v) { return Fin(v) && v >= 0; }

bool LoopOk(const SS& p) {
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  if (!l.is_enabled) return true;
  double window = l.min_speed_sampling_window.Value();
  return NonNeg(l.speed_lower_bound) && NonNeg(l.speed_upper_bound) &&
         l.speed_lower_bound <= l.speed_upper_bound &&
         NonNeg(l.interpolation_strength_at_speed_upper_bound) &&
         l.interpolation_strength_at_speed_upper_bound <= l.interpolation_strength_at_speed_lower_bound &&
         l.interpolation_strength_at_speed_lower_bound <= 1 &&
         l.min_discrete_speed_samples >= 1 && l.min_discrete_speed_samples <= 10000 &&
         window > 0 && window <= 10000;
}
bool PositionOk(const SS& p) {
  return LoopOk(p) && Pos(p.position_modeler_params.spring_mass_constant) && Pos(p.position_modeler_params.drag_constant);
}
bool SamplingOk(const SS& p) {
  const auto& s = p.sampling_params;
  double a = s.max_estimated_angle_to_traverse_per_input;
  return Pos(s.min_output_rate) && Pos(s.end_of_stroke_stopping_distance) && s.end_of_stroke_max_iterations >= 1 &&
         s.end_of_stroke_max_iterations <= 1000 && s.max_outputs_per_call >= 1 && (a == -1 || (a > 0 && a < kPiD));
}
bool StylusOk(const SS& p) {
  const auto& s = p.stylus_state_modeler_params;
  if (s.use_stroke_normal_projection) return s.min_input_samples >= 1 && Pos(s.min_sample_duration.Value());
  return s.max_input_samples >= 1;
}
bool WobbleOk(const SS& p) {
  const auto& w = p.wobble_smoother_params;
  if (!w.is_enabled) return true;
  return NonNeg(w.timeout.Value()) && NonNeg(w.speed_floor) && NonNeg(w.speed_ceiling) && w.speed_floor <= w.speed_ceiling;
}
bool PredictionOk(const SS& p) {
  const auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params);
  if (!k) return true;
  const auto& c = k->confidence_params;
  return Pos(k->process_noise) && Pos(k->measurement_noise) && k->min_stable_iteration >= 1 && k->max_time_samples >= 1 &&
         Pos(k->min_catchup_velocity) && Fin(k->acceleration_weight) && Fin(k->jerk_weight) &&
         Pos(k->prediction_interval.Value()) && c.desired_number_of_samples >= 1 && Pos(c.max_estimation_distance) &&
         NonNeg(c.min_travel_speed) && NonNeg(c.max_travel_speed) && c.min_travel_speed <= c.max_travel_speed &&
         Pos(c.max_linear_deviation) && NonNeg(c.baseline_linearity_confidence) && c.baseline_linearity_confidence <= 1;
}
bool AllOk(const SS& p) {
  if (p.position_modeler_params.loop_contraction_mitigation_params.is_enabled &&
      !p.stylus_state_modeler_params.use_stroke_normal_projection)
    return false;
  return PositionOk(p) && SamplingOk(p) && StylusOk(p) && WobbleOk(p) && PredictionOk(p);
}

const std::vector<double>& Values(char type) {
  static const std::vector<double> f = {kDNaN, kDInf, -kDInf, -1, -1e-45f, -0., 0, 1e-45f, 1.17549435e-38f, .5f,
                                        std::nextafterf(1, 0), 1, std::nextafterf(1, 2), 7.f,
                                        std::numeric_limits<float>::max(), -std::numeric_limits<float>::max()};
  static const std::vector<double> d = {kDNaN, kDInf, -kDInf, -1, std::nextafter(-1, 0), std::nextafter(-1, -2), -5e-324, -0., 0, 5e-324, .5, 1, 3,
                                        std::nextafter(kPiD, 0), kPiD, (double)(float)kPiD, 10000,
                                        std::nextafter(10000, 20000), 1.7e308, -1.7e308};
  static const std::vector<double> i = {INT_MIN, -1, 0, 1, 2, 20, 999, 1000, 1001, 9999, 10000, 10001, 100000, INT_MAX};
  return type == 'f' ? f : type == 'd' ? d : i;
}

constexpr int kFlags = 24;
SS Base(int flags) {
  Pick pick(flags);
  SS p = BaseParams();
  EnableLoopMitigation(p);
  p.wobble_smoother_params.is_enabled = pick(2);
  p.position_modeler_params.loop_contraction_mitigation_params.is_enabled = pick(2);
  p.stylus_state_modeler_params.use_stroke_normal_projection = pick(2);
  switch (pick(3)) {
    case 0: p.prediction_params = BaseKalman(); break;
    case 1: p.prediction_params = sm::StrokeEndPredictorParams{}; break;
    case 2: p.prediction_params = sm::DisabledPredictorParams{}; break;
  }
  return p;
}

bool One(const char* what, const absl::Status& s, bool want, Ctx& ctx) {
  ctx.c.compared++;
  ctx.Log("%s: %s, expected %s", what, Str(s).c_str(), want ? "OK" : "InvalidArgument");
  if (s.ok() == want && (s.ok() || s.code() == absl::StatusCode::kInvalidArgument)) return true;
  ctx.Fail("%s: %s, expected %s", what, Str(s).c_str(), want ? "OK" : "InvalidArgument");
  return false;
}
void Judge(const SS& p, Ctx& ctx) {
  bool want = AllOk(p);
  ctx.c.transitions++;
  if (!want) ctx.c.nontrivial++;
  if (!One("ValidateStrokeModelParams", sm::ValidateStrokeModelParams(p), want, ctx)) return;
  if (!One("ValidatePositionModelerParams", sm::ValidatePositionModelerParams(p.position_modeler_params), PositionOk(p), ctx)) return;
  if (!One("ValidateSamplingParams", sm::ValidateSamplingParams(p.sampling_params), SamplingOk(p), ctx)) return;
  if (!One("ValidateStylusStateModelerParams", sm::ValidateStylusStateModelerParams(p.stylus_state_modeler_params), StylusOk(p), ctx)) return;
  if (!One("ValidateWobbleSmootherParams", sm::ValidateWobbleSmootherParams(p.wobble_smoother_params), WobbleOk(p), ctx)) return;
  if (!One("ValidatePredictionParams", sm::ValidatePredictionParams(p.prediction_params), PredictionOk(p), ctx)) return;
  StrokeModeler m;
  if (!One("Reset", m.Reset(p), want, ctx)) return;
  // Accepted parameters are in effect, rejected ones are not.
  Results out;
  absl::Status s = m.Update(In(ET::kDown, 1, 2, 3), out);
  if (s.ok() != want) return ctx.Fail("after Reset, a Down returns %s", Str(s).c_str());
  Results pred;
  s = m.Predict(pred);
  bool predicts = want && !std::holds_alternative<sm::DisabledPredictorParams>(p.prediction_params);
  // A prediction after one input is empty: at the input, or not stable.
  if (s.ok() != predicts) return ctx.Fail("after Reset and a Down, Predict returns %s", Str(s).c_str());
}

void Set(SS& p, int f, int v, Ctx& ctx) {
  const Field& fl = Fields()[f];
  double x = Values(fl.type)[v];
  fl.set(p, x);
  ctx.Log("%s = %.17g", fl.name, x);
}

constexpr int kMaxV = 20;

// The tuples of distinct fields, with the number of value tuples of each.
struct Tuples {
  std::vector<std::vector<int>> f;
  std::vector<uint64_t> start{0};
  void Add(std::vector<int> t) {
    uint64_t n = 1;
    for (int k : t) n *= Values(Fields()[k].type).size();
    f.push_back(t);
    start.push_back(start.back() + n);
  }
  // Decodes an index, setting the fields.
  void Apply(uint64_t i, SS& p, Ctx& ctx) const {
    size_t k = std::upper_bound(start.begin(), start.end(), i) - start.begin() - 1;
    Pick pick(i - start[k]);
    for (int fl : f[k]) Set(p, fl, pick(Values(Fields()[fl].type).size()), ctx);
  }
};
const Tuples& AllPairs() {
  static const Tuples t = [] {
    Tuples t;
    for (int a = 0; a < (int)Fields().size(); ++a)
      for (int b = a + 1; b < (int)Fields().size(); ++b) t.Add({a, b});
    return t;
  }();
  return t;
}
Tuples GroupTriples(const std::string& groups) {
  Tuples t;
  int n = (int)Fields().size();
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      for (int c = b + 1; c < n; ++c)
        if (Fields()[a].group == Fields()[b].group && Fields()[b].group == Fields()[c].group &&
            groups.find(Fields()[a].group) != std::string::npos)
          t.Add({a, b, c});
  return t;
}

// Two fields, all pairs of values.
void Pairs(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  SS p = Base(pick(kFlags));
  AllPairs().Apply(pick.rest(), p, ctx);
  ctx.State(Mix(1, i));
  Judge(p, ctx);
}
// Three fields of one group.
void Triples(uint64_t i, Ctx& ctx, const Tuples& t) {
  SS p = Base(7);
  t.Apply(i, p, ctx);
  ctx.State(Mix(2, i));
  Judge(p, ctx);
}
// All values of the bounds that constrain each other.
void Bounds(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  SS p = Base(7);
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  const auto& v = Values('f');
  l.speed_lower_bound = v[pick(16)];
  l.speed_upper_bound = v[pick(16)];
  l.interpolation_strength_at_speed_lower_bound = v[pick(16)];
  l.interpolation_strength_at_speed_upper_bound = v[pick(16)];
  Judge(p, ctx);
}
// Every field of one group at a boundary at once: the disabled features' fields
// are ignored whatever they hold.
void Garbage(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  int flags = pick(kFlags), v = pick(kMaxV), mask = pick(64);
  SS p = Base(flags);
  const char groups[] = "wplsyk";
  for (size_t f = 0; f < Fields().size(); ++f) {
    const auto& vals = Values(Fields()[f].type);
    int g = (int)(strchr(groups, Fields()[f].group) - groups);
    if (mask >> g & 1) Set(p, (int)f, v % vals.size(), ctx);
  }
  ctx.State(Mix(3, i));
  Judge(p, ctx);
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a set of parameters decoded from its index, judged by Reset and by the six public validation functions; non-trivial: the parameters are invalid");
  std::vector<Space> v;
  v.push_back({"pairs", "all pairs of the 33 numeric fields at all pairs of boundary values (16 floats, 20 doubles, 14 integers: NaN, infinities, negative, zero, denormal, documented limits and their neighbours, largest), under all 24 combinations of enabled features",
               kFlags * AllPairs().start.back(), Pairs});
  v.push_back({"garbage", "all subsets of the six groups set to one of the boundary values throughout, under all 24 combinations of enabled features", kFlags * 20 * 64, Garbage});
  v.push_back({"bounds", "all values of the four bounds of the loop mitigation", Pow(16, 4), Bounds});
  std::string groups = "wplsyk";
  auto t = std::make_shared<Tuples>(GroupTriples(groups));
  v.push_back({"triples", "all triples of fields of one group (" + groups + ") at all boundary values, everything enabled", t->start.back(),
               [=](uint64_t i, Ctx& c) { Triples(i, c, *t); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C15", Make); }
