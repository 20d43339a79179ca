// C07: output timing and sample counts, by invariants computed from the inputs
// and the previous results alone.
#include "session.h"
#include "units.h"

using namespace vx;

namespace {

// Checks every call of a stroke.
class Watch {
 public:
  Watch(const StrokeModelParams& p, Ctx& ctx) : ctx_(ctx) { Reset(&p); }
  bool Reset(const StrokeModelParams* p) {
    ctx_.Log(p ? "Reset(parameters)" : "Reset()");
    if (p) p_ = *p;
    absl::Status s = p ? m_.Reset(*p) : m_.Reset();
    if (!s.ok()) ctx_.Fail("valid parameters rejected: %s", Str(s).c_str());
    rate_ = p_.sampling_params.min_output_rate;
    step_ = 1 / rate_;
    max_ = p_.sampling_params.max_outputs_per_call;
    started_ = false;
    saved_.reset();
    return ok();
  }
  bool Save() {
    ctx_.Log("Save");
    m_.Save();
    saved_ = {gap_, last_, tip_};
    return ok();
  }
  bool Restore() {
    ctx_.Log("Restore");
    m_.Restore();
    if (saved_) gap_ = saved_->gap, last_ = saved_->last, tip_ = saved_->tip;
    return ok();
  }
  // An Update that is to be rejected and to leave everything as it was.
  bool Rejected(const Input& in) {
    ctx_.Log("Update %s, to be rejected", Str(in).c_str());
    ctx_.c.transitions++;
    Results r;
    return !m_.Update(in, r).ok() && ok();
  }
  bool ok() const { return !ctx_.failed; }
  bool accepted() const { return accepted_; }
  const Results& out() const { return out_; }

  // The numbers of results that a Move (or the part of an Up before its time)
  // may have: usually one number; two if rounding decides.
  void Counts(const Input& in, int& lo, int& hi) {
    double dt = in.time.Value() - last_.time.Value();
    double x = dt * rate_;
    double r = std::round(x);
    if (x == r && (double)(float)dt == dt) {
      lo = hi = (int)r;
    } else if (std::fabs(x - r) <= 3e-7 * std::max(1., x)) {
      lo = (int)r;
      hi = (int)r + 1;
    } else {
      lo = hi = (int)std::min(2e9, std::ceil(x));
    }
    double limit = p_.sampling_params.max_estimated_angle_to_traverse_per_input;
    if (limit <= 0) return;
    if (p_.position_modeler_params.loop_contraction_mitigation_params.is_enabled) {
      // The results are projected onto the stroke: they do not tell where the tip is.
      hi = std::max(hi, (int)std::ceil(kPiD / limit + 1e-3));
      return;
    }
    // How far the tip would turn: its velocity now, and after a step of dt
    // without drag.
    const double k = p_.position_modeler_params.spring_mass_constant;
    double vx = tip_.velocity.x, vy = tip_.velocity.y;
    double ex = vx + dt * ((double)in.position.x - tip_.position.x) / k;
    double ey = vy + dt * ((double)in.position.y - tip_.position.y) / k;
    double m1 = std::hypot(vx, vy), m2 = std::hypot(ex, ey);
    if (m1 == 0) return;  // no direction
    double scale = std::max({std::fabs(in.position.x), std::fabs(in.position.y),
                             std::fabs(tip_.position.x), std::fabs(tip_.position.y)});
    double noise = 1e-6 * (m1 + scale * dt / k);
    if (m2 <= 4 * noise) {  // may point anywhere
      hi = std::max(hi, (int)std::ceil(kPiD / limit + 1e-3));
      return;
    }
    double a = std::fabs(std::atan2(vx * ey - vy * ex, vx * ex + vy * ey));
    // the cosine is rounded to a float, which matters next to 0 and pi
    double e = noise / m2 + 2e-6;
    double lo_a = a - e, hi_a = a + e;
    double c = std::cos(a), ce = 4e-7;
    lo_a = std::min(lo_a, std::acos(std::min(1., c + ce)));
    hi_a = std::max(hi_a, std::acos(std::max(-1., c - ce)));
    lo = std::max(lo, (int)std::ceil(std::max(0., lo_a) / limit * (1 - 1e-6)));
    hi = std::max(hi, (int)std::ceil(hi_a / limit * (1 + 1e-6)));
    if (lo > (int)std::ceil(x)) ctx_.c.nontrivial++;
  }

  bool Update(const Input& in) {
    if (!ok()) return false;
    if (started_ && in == last_) return true;  // would be a duplicate
    out_.clear();
    ctx_.Log("Update %s", Str(in).c_str());
    ctx_.c.transitions++;
    int lo = 0, hi = 0;
    if (in.event_type != ET::kDown) Counts(in, lo, hi);
    absl::Status s = m_.Update(in, out_);
    ctx_.Log("  -> %s, %zu results (expected %d to %d)", Str(s).c_str(), out_.size(), lo, hi);
    for (const Result& r : out_) ctx_.Log("     %s", Str(r).c_str());
    accepted_ = s.ok();
    if (lo != hi) ctx_.c.ambiguous++;
    if (!s.ok()) {
      if (hi <= max_) ctx_.Fail("%s needs %d results, max_outputs_per_call is %d: %s", Str(in).c_str(), hi, max_, Str(s).c_str());
      else if (s.code() != absl::StatusCode::kInvalidArgument) ctx_.Fail("%s: %s", Str(in).c_str(), Str(s).c_str());
      else if (!out_.empty()) ctx_.Fail("%s: rejected with %zu results", Str(in).c_str(), out_.size());
      return ok();
    }
    ctx_.c.compared += out_.size();
    if (lo > max_) {
      ctx_.Fail("%s needs %d results, max_outputs_per_call is %d, but is accepted", Str(in).c_str(), lo, max_);
      return false;
    }
    const int n = (int)out_.size();
    if (n == 0) {
      ctx_.Fail("%s yields no result", Str(in).c_str());
      return false;
    }
    if (n > max_) {
      ctx_.Fail("%s yields %d results, max_outputs_per_call is %d", Str(in).c_str(), n, max_);
      return false;
    }
    if (in.event_type == ET::kDown) {
      const Result& r = out_[0];
      if (n != 1 || r.position.x != in.position.x || r.position.y != in.position.y || r.time.Value() != in.time.Value() ||
          r.velocity.x != 0 || r.velocity.y != 0 || r.acceleration.x != 0 || r.acceleration.y != 0) {
        ctx_.Fail("%s yields %d results, the first %s", Str(in).c_str(), n, Str(r).c_str());
        return false;
      }
      started_ = true;
      saved_.reset();
      gap_ = 0;
      last_ = in;
      tip_ = r;
      return true;
    }
    const double t0 = last_.time.Value(), t1 = in.time.Value();
    int steps;
    if (in.event_type == ET::kMove) {
      steps = n;
      if (n < std::max(1, lo) || n > std::max(1, hi)) {
        ctx_.Fail("%s yields %d results, expected %d%s", Str(in).c_str(), n, std::max(1, lo), lo == hi ? "" : " (or so)");
        return false;
      }
    } else {
      // The results up to the time of the Up, then the catch-up.
      steps = 0;
      while (steps < n && out_[steps].time.Value() <= t1 + Tol(t0, t1)) ++steps;
      if (steps < lo || (steps > hi && n > 1)) {
        ctx_.Fail("%s yields %d results up to its time, expected %d%s", Str(in).c_str(), steps, lo, lo == hi ? "" : " (or so)");
        return false;
      }
      if (n - steps > p_.sampling_params.end_of_stroke_max_iterations && n > 1) {
        ctx_.Fail("%s yields %d catch-up results, end_of_stroke_max_iterations is %d", Str(in).c_str(), n - steps,
                  p_.sampling_params.end_of_stroke_max_iterations);
        return false;
      }
    }
    for (int i = 0; i < steps; ++i) {
      double want = t0 + (t1 - t0) * (i + 1) / steps, have = out_[i].time.Value();
      if (!(std::fabs(have - want) <= Tol(t0, t1))) {
        ctx_.Fail("%s: result %d is at %.17g, expected %.17g", Str(in).c_str(), i, have, want);
        return false;
      }
    }
    if (n > 1) ctx_.c.nontrivial++;
    if (!Spacing(out_, Str(in).c_str())) return false;
    uint64_t h = Mix(3, n);
    h = HashF(h, out_.back().time.Value());
    ctx_.State(HashResult(h, out_.back()));
    gap_ = t1 - t0;
    last_ = in;
    tip_ = out_.back();
    return true;
  }
  bool Predict() {
    if (!ok()) return false;
    Results out;
    ctx_.c.transitions++;
    absl::Status s = m_.Predict(out);
    if (std::holds_alternative<sm::DisabledPredictorParams>(p_.prediction_params)) return true;
    if (!s.ok()) {
      ctx_.Fail("Predict: %s", Str(s).c_str());
      return false;
    }
    ctx_.Log("Predict: %zu results", out.size());
    for (const Result& r : out) ctx_.Log("     %s", Str(r).c_str());
    ctx_.c.compared += out.size();
    if ((int)out.size() > max_) {
      ctx_.Fail("Predict yields %zu results, max_outputs_per_call is %d", out.size(), max_);
      return false;
    }
    return Spacing(out, "Predict");
  }

 private:
  // Rounding of a time between t0 and t1.
  double Tol(double t0, double t1) {
    return 5e-7 * (t1 - t0) + 4 * 2.3e-16 * std::max(std::fabs(t0), std::fabs(t1));
  }
  bool Spacing(const Results& out, const char* what) {
    double prev = tip_.time.Value();
    double range = out.empty() ? 0 : out.back().time.Value() - prev;
    for (size_t i = 0; i < out.size(); ++i) {
      double t = out[i].time.Value();
      double tol = Tol(0, range) + 1e-6 * gap_ + 8 * 2.3e-16 * std::fabs(t);
      if (!(t >= prev - 8 * 2.3e-16 * std::fabs(t))) {
        ctx_.Fail("%s: result %zu is at %.17g, before the previous one at %.17g", what, i, t, prev);
        return false;
      }
      if (!(t - prev <= step_ + tol)) {
        ctx_.Fail("%s: result %zu is at %.17g, %.9g after the previous one, min_output_rate is %g", what, i, t, t - prev, rate_);
        return false;
      }
      prev = t;
    }
    return true;
  }

  StrokeModelParams p_;
  Ctx& ctx_;
  StrokeModeler m_;
  double rate_, step_, gap_ = 0;
  int max_;
  bool started_ = false, accepted_ = false;
  Input last_;
  Result tip_;
  Results out_;
  struct Saved {
    double gap;
    Input last;
    Result tip;
  };
  std::optional<Saved> saved_;
};

// Stages that must not matter for the timing.
constexpr int kStages = 6;
StrokeModelParams Stage(int k) {
  StrokeModelParams p = BaseParams();
  p.wobble_smoother_params.is_enabled = k != 0 && k != 2;
  if (k == 2 || k == 3) p.sampling_params.max_estimated_angle_to_traverse_per_input = k == 2 ? .1 : .7;
  if (k == 4) p.prediction_params = BaseKalman();
  if (k == 5) EnableLoopMitigation(p);
  return p;
}
// The spring must be stable at the output rate.
void SetRate(StrokeModelParams& p, double rate) {
  p.sampling_params.min_output_rate = rate;
  if (rate >= 60) return;
  p.position_modeler_params.spring_mass_constant *= (float)(180 * 180 / rate / rate);
  p.position_modeler_params.drag_constant *= (float)(rate / 180);
}
const double kRates[] = {64, 180, 100.1, 1000, 7};
const int kMax[] = {1, 2, 3, 8, 1000};

// Gaps in units of the output interval.
const double kGap[] = {0, 1, .5, 1.5, 2, 7, 1.0000002, .9999998};
const float kDx[] = {0, .8f, -2};
const float kDy[] = {.3f, 0, -1.5f};

void Sequences(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  StrokeModelParams p = Stage(pick(kStages));
  SetRate(p, kRates[pick(5)]);
  p.sampling_params.max_outputs_per_call = kMax[pick(5)];
  Watch w(p, ctx);
  Vec2 q{1, 2};
  double t = 4;
  w.Update(In(ET::kDown, q.x, q.y, t));
  for (int d = 0; d < depth; ++d) {
    int g = pick(8), k = pick(3);
    Input in = In(d + 1 == depth ? ET::kUp : ET::kMove, q.x + kDx[k], q.y + kDy[k], t + kGap[g] / p.sampling_params.min_output_rate);
    if (!w.Update(in)) return;
    if (!w.accepted()) continue;
    q = in.position;
    t = in.time.Value();
    if (d + 1 < depth && !w.Predict()) return;
  }
}

// A gap of k intervals (and next to it), with every limit next to k.
void Boundaries(uint64_t i, Ctx& ctx, int max_k) {
  Pick pick(i);
  StrokeModelParams p = Stage(0);
  const double rates[] = {64, 128, 1, 4096, 180, 61, 240, 1000, 3.7, .5};
  const double starts[] = {0, 4, 1.1, 1024, -3, 1.7e9};
  SetRate(p, rates[pick(10)]);
  double t = starts[pick(6)];
  int k = pick(max_k) + 1, nudge = pick(9), limit = pick(4), up = pick(2);
  double gap = k / p.sampling_params.min_output_rate;
  static const double nudges[] = {0, 1e-6, -1e-6, 1e-5, -1e-5, .25, -.25, .5, -.5};
  gap *= 1 + nudges[nudge] / k;
  const int limits[] = {k - 1, k, k + 1, 3 * k + 30};
  if (limits[limit] < 1) return;
  p.sampling_params.max_outputs_per_call = limits[limit];
  Watch w(p, ctx);
  w.Update(In(ET::kDown, 2, 1, t));
  if (!w.Update(In(up ? ET::kUp : ET::kMove, 3, 1.5f, t + gap))) return;
  if (!up) {
    w.Predict();
    Input last = In(ET::kUp, 3, 2, t + (w.accepted() ? 2 : 1) * gap);
    w.Update(last);
  }
}

// Turns at the same speed: the angle between successive velocities is what the
// input makes it.
void Angles(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  StrokeModelParams p = Stage(0);
  const double limits[] = {.01, .1, .3, 1, 1.5707, 3, .0312};
  p.sampling_params.max_estimated_angle_to_traverse_per_input = limits[pick(7)];
  const float springs[] = {11.f / 32400, 1e-4f, 2e-3f};
  p.position_modeler_params.spring_mass_constant = springs[pick(3)];
  const double rates[] = {180, 60, 1000};
  p.sampling_params.min_output_rate = rates[pick(3)];
  const int maxs[] = {1000, 20, 4};
  p.sampling_params.max_outputs_per_call = maxs[pick(3)];
  int smooth = pick(2);
  p.wobble_smoother_params.is_enabled = smooth;
  Watch w(p, ctx);
  Vec2 q{0, 0};
  double t = 1, heading = 0;
  w.Update(In(ET::kDown, 0, 0, t));
  w.Update(In(ET::kMove, .5f, 0, t += .02));
  q = {.5f, 0};
  for (int d = 0; d < depth; ++d) {
    int turn = pick(8), dt = pick(3), far = pick(2);
    const double turns[] = {0, .05, .4, 1.2, 1.5707963, 2.5, 3.14159265, -2};
    const double dts[] = {.0061, .02, 0};
    double h = heading + turns[turn], len = far ? 2 : .1;
    Input in = In(d + 1 == depth ? ET::kUp : ET::kMove, q.x + (float)(len * std::cos(h)), q.y + (float)(len * std::sin(h)), t + dts[dt]);
    if (!w.Update(in)) return;
    if (!w.accepted()) continue;
    heading = h;
    q = in.position;
    t = in.time.Value();
  }
}

// Long strokes and the parameters that bear on the number of outputs.
void Strokes(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  StrokeModelParams p = Stage(pick(kStages));
  SetRate(p, kRates[pick(5)]);
  const int maxs[] = {1000, 60, 7};
  p.sampling_params.max_outputs_per_call = maxs[pick(3)];
  const float stops[] = {.001f, .2f};
  p.sampling_params.end_of_stroke_stopping_distance = stops[pick(2)];
  const int iters[] = {1, 20, 300};
  p.sampling_params.end_of_stroke_max_iterations = iters[pick(3)];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Watch w(p, ctx);
  for (const Input& in : MakeStroke(shape, timing, kAllKnown, len)) {
    if (!w.Update(in)) return;
    if (in.event_type != ET::kUp && !w.Predict()) return;
  }
}

// The stroke within a history.
void Sessions(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int k = pick(kStages);
  StrokeModelParams p = Stage(k);
  SetRate(p, kRates[k % 5]);
  p.sampling_params.max_outputs_per_call = 1000;
  Watch c(p, ctx);
  if (Session(pick, c, p, thorough, true)) ctx.c.nontrivial++;
}

// Other units.
void Unit(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const int us[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 17};
  static const std::vector<Units> all = AllUnits();
  const Units& u = all[us[pick(12)]];
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown};
  Stroke s = MakeStroke(shape, timing, stylus[(shape + timing) % 3], 24);
  int k = pick(kStages);
  StrokeModelParams p = Stage(k);
  p = Convert(p, u);
  if (!sm::ValidateStrokeModelParams(p).ok()) return;
  p.sampling_params.max_outputs_per_call = 3000;
  Watch c(p, ctx);
  for (const Input& in : s) {
    Input x = Convert(in, u);
    if (!c.Update(x)) return;
    if (true && in.event_type != ET::kUp && !c.Predict()) return;
  }
  ctx.c.nontrivial++;
}

// All combinations of stages.
void Stages(uint64_t i, Ctx& ctx, bool marathon = false) {
  Pick pick(i);
  static const std::vector<Config> all = AllStages();
  StrokeModelParams p = all[marathon ? kMarathonStages[pick(6)] : pick(kAllStages)].p;
  bool deep = marathon && pick(2) && Deepen(p);
  p.sampling_params.max_outputs_per_call = 1000;
  Watch c(p, ctx);
  if (marathon ? MarathonStroke(pick, c, deep) : StageStroke(pick, c)) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and its sampling parameters decoded from its index; non-trivial counts the calls with several results or with a count decided by the angle limit");
  AddAssumption("a gap within 3e-7 (relative) of a whole number of output intervals, unless exactly representable, and an angle within rounding of a whole number of limits, may yield the next count");
  std::vector<Space> v;
  int d = thorough ? 4 : 3;
  v.push_back({"sequences", "all sequences of a Down, " + std::to_string(d - 1) + " Moves and an Up over 8 gaps (around 0, 1, 2 and 7 output intervals) and 3 displacements, rejected inputs included, a prediction after each; 5 rates, 5 limits, 6 combinations of stages",
               150ull * Pow(24, d), [=](uint64_t i, Ctx& c) { Sequences(i, c, d); }});
  int mk = thorough ? 1500 : 90;
  v.push_back({"boundaries", "gaps of 1 to " + std::to_string(mk) + " intervals and 8 deviations from each, 10 rates, 6 starting times, limits below, at and above the need; Move and Up",
               10ull * 6 * mk * 9 * 4 * 2, [=](uint64_t i, Ctx& c) { Boundaries(i, c, mk); }});
  int da = thorough ? 3 : 2;
  v.push_back({"angles", "all sequences of " + std::to_string(da) + " turns out of 8, 3 time steps, 2 distances; 7 angle limits, 3 springs, 3 rates, 3 output limits, smoothing on or off",
               7ull * 3 * 3 * 3 * 2 * Pow(48, da), [=](uint64_t i, Ctx& c) { Angles(i, c, da); }});
  int len = thorough ? 150 : 40;
  v.push_back({"strokes", "48 strokes of " + std::to_string(len) + " inputs with predictions after each; 6 combinations of stages, 5 rates, 3 limits, 2 stopping distances, 3 iteration limits",
               (uint64_t)kStages * 5 * 3 * 2 * 3 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Strokes(i, c, len); }});
  int el = thorough ? 20000 : 2000;
  v.push_back({"endurance", "48 strokes of " + std::to_string(el) + " inputs, the 6 combinations of stages",
               (uint64_t)kStages * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 StrokeModelParams p = Stage(pick(kStages));
                 int shape = pick(kNumShapes), timing = pick(kNumTimings), k = 0;
                 Watch w(p, c);
                 for (const Input& in : MakeStroke(shape, timing, kAllKnown, el)) {
                   if (!w.Update(in)) return;
                   if (in.event_type != ET::kUp && ++k % 16 == 0 && !w.Predict()) return;
                 }
               }});
  v.push_back({"stages", VX_STAGES_TEXT, (uint64_t)kAllStages * kNumShapes * kNumTimings * 4, [](uint64_t i, Ctx& c) { Stages(i, c); }});
  v.push_back({"marathon", VX_MARATHON_TEXT, kMarathonCases, [](uint64_t i, Ctx& c) { Stages(i, c, true); }});
  v.push_back({"sessions", "a stroke of 12 inputs (8 shapes) with " VX_SESSION_TEXT "; the 6 combinations of stages",
               6 * SessionCases(thorough), [=](uint64_t i, Ctx& c) { Sessions(i, c, thorough); }});
  v.push_back({"units", "48 strokes of 24 inputs in 12 systems of units (distances by 2^-30 to 2^30, times by 2^-20 to 2^16, shifted or turned), parameters converted; the 6 combinations of stages",
               12ull * kNumShapes * kNumTimings * 6, Unit});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C07", Make); }
