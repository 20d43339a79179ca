// C01: the protocol automaton. The model is written from the documentation and
// shares nothing with the implementation: it decides for every call whether it
// is accepted, and with which error code it is rejected.
#include "common.h"

using namespace vx;

namespace {

constexpr int kOk = (int)absl::StatusCode::kOk;
constexpr int kPre = (int)absl::StatusCode::kFailedPrecondition;
constexpr int kArg = (int)absl::StatusCode::kInvalidArgument;

struct Cfg {
  StrokeModelParams p;
  bool predicts;
};
const std::vector<Cfg>& Cfgs() {
  static std::vector<Cfg>* v = [] {
    auto* v = new std::vector<Cfg>;
    StrokeModelParams p = BaseParams();
    p.sampling_params.min_output_rate = 128;
    p.sampling_params.max_outputs_per_call = 64;
    v->push_back({p, true});
    p.prediction_params = sm::DisabledPredictorParams{};
    p.wobble_smoother_params.is_enabled = false;
    v->push_back({p, false});
    p = BaseParams();
    EnableLoopMitigation(p);
    p.prediction_params = BaseKalman();
    p.sampling_params.min_output_rate = 128;
    p.sampling_params.max_outputs_per_call = 64;
    v->push_back({p, true});
    return v;
  }();
  return *v;
}
StrokeModelParams BadP() {
  StrokeModelParams p = BaseParams();
  p.sampling_params.end_of_stroke_stopping_distance = -1;
  return p;
}

struct State {
  int cfg = -1;
  bool stroke = false;
  Input last = In(ET::kDown, 1, 1, 8, .5f, .5f, .5f);  // of the stroke in progress, or of the last one
  bool saved = false;
  bool saved_stroke = false;
  Input saved_last;
};

constexpr int kOps = 28;

// The input of operation `op` in state `s`, or false if it is not an Update.
bool OpInput(int op, const State& s, Input& in) {
  const Input& l = s.last;
  double t = l.time.Value();
  Input b = In(ET::kMove, l.position.x + .25f, l.position.y - .125f, t + 1 / 64., .5f, .25f, 1);
  switch (op) {
    case 0: b.event_type = ET::kDown; break;
    case 1: break;
    case 2: b.event_type = ET::kUp; break;
    case 3: b = l; break;                                      // identical
    case 4: b.time = l.time; break;                            // same time, other position
    case 5: b.time = Time(t - 1 / 128.); break;                // backwards
    case 6: b = l; b.event_type = ET::kUp; break;              // up right here
    case 7: b.event_type = ET::kDown; b.time = Time(t - 1); break;
    case 8: b.position.x = kNaN; break;
    case 9: b.event_type = ET::kDown; b.time = Time(kDInf); break;
    case 10: b.event_type = static_cast<ET>(3); break;
    case 11: b.time = Time(t + 64 / 128. + 1 / 4096.); break;  // just too far
    case 12: b.event_type = ET::kUp; b.time = Time(t + 3); break;
    case 13: b.time = Time(t + 64 / 128.); break;              // just not too far
    case 14: b.position = {3e38f, 3e38f}; break;
    case 15: b.event_type = ET::kUp; b.time = Time(t - 1 / 4096.); break;
    case 16: b.event_type = ET::kUp; b.position.y = -kInf; break;
    case 17: b = l; b.pressure = l.pressure + .0625f; if (b.event_type == ET::kDown) b.event_type = ET::kMove; break;  // only pressure differs
    case 18: b = l; b.orientation = l.orientation + 1; b.tilt = l.tilt; if (b.event_type == ET::kDown) b.event_type = ET::kMove; break;
    case 19: b.event_type = ET::kUp; b.time = l.time; break;
    case 20: b.time = Time(kDNaN); break;
    case 26: b = l; b.tilt = l.tilt + .0625f; if (b.event_type == ET::kDown) b.event_type = ET::kMove; break;
    case 27: b.event_type = ET::kUp; b.time = Time(t + 64 / 128.); break;  // just not too far
    default: return false;
  }
  in = b;
  return true;
}

// The allowed status codes of an Update.
struct Allowed {
  bool ok = false, pre = false, arg = false;
};
Allowed Decide(const State& s, const Input& in) {
  Allowed a;
  int t = (int)in.event_type;
  bool known = t == (int)ET::kDown || t == (int)ET::kMove || t == (int)ET::kUp;
  if (s.cfg < 0) a.pre = true;
  if (!known || !std::isfinite(in.position.x) || !std::isfinite(in.position.y) ||
      !std::isfinite(in.time.Value()))
    a.arg = true;
  if (s.cfg >= 0 && s.stroke) {
    const Input& l = s.last;
    bool same = in.event_type == l.event_type && in.position.x == l.position.x &&
                in.position.y == l.position.y && in.time.Value() == l.time.Value() &&
                in.pressure == l.pressure && in.tilt == l.tilt && in.orientation == l.orientation;
    if (same || in.time.Value() < l.time.Value()) a.arg = true;
    if (in.event_type == ET::kDown) a.pre = true;
    if (in.event_type != ET::kDown) {
      double steps = std::ceil((in.time - s.last.time).Value() * 128);
      if (steps > 64) a.arg = true;
      if (std::fabs(in.position.x) > 1e38 || std::fabs(in.position.y) > 1e38) a.arg = true;
    }
  } else if (s.cfg >= 0 && known && in.event_type != ET::kDown) {
    a.pre = true;
  }
  a.ok = !a.pre && !a.arg;
  return a;
}

void Step(int op, State& s, StrokeModeler& m, Ctx& ctx, int& rejections) {
  ctx.c.transitions++;
  auto expect = [&](const char* what, const absl::Status& st, bool ok, bool pre, bool arg) {
    ctx.Log("%s -> %s", what, Str(st).c_str());
    ctx.c.compared++;
    int c = (int)st.code();
    if ((c == kOk && ok) || (c == kPre && pre) || (c == kArg && arg)) {
      if (c != kOk) ++rejections;
      return c == kOk;
    }
    ctx.Fail("%s returned \"%s\", expected%s%s%s (stroke %s, last input %s)", what,
             Str(st).c_str(), ok ? " OK" : "", pre ? " FAILED_PRECONDITION" : "",
             arg ? " INVALID_ARGUMENT" : "", s.stroke ? "in progress" : "not in progress",
             Str(s.last).c_str());
    return false;
  };
  Input in;
  Results v;
  if (OpInput(op, s, in)) {
    Allowed a = Decide(s, in);
    absl::Status st = m.Update(in, v);
    std::string what = ctx.verbose || st.ok() != a.ok ? "Update(" + Str(in) + ")" : "Update";
    if (expect(what.c_str(), st, a.ok, a.pre, a.arg)) {
      if (v.empty()) ctx.Fail("Update succeeded without a result");
      s.stroke = in.event_type != ET::kUp;
      s.last = in;
      if (in.event_type == ET::kDown) s.saved = false;
    }
    return;
  }
  switch (op) {
    case 21: {
      bool ok = s.cfg >= 0 && s.stroke && Cfgs()[s.cfg].predicts;
      expect("Predict()", m.Predict(v), ok, !ok, false);
      break;
    }
    case 22: m.Save(); ctx.Log("Save()"); s.saved = true; s.saved_stroke = s.stroke; s.saved_last = s.last; break;
    case 23:
      m.Restore();
      ctx.Log("Restore()");
      if (s.saved) {
        s.stroke = s.saved_stroke;
        s.last = s.saved_last;
      }
      break;
    case 24:
      if (expect("Reset()", m.Reset(), s.cfg >= 0, s.cfg < 0, false)) {
        s.stroke = false;
        s.saved = false;
      }
      break;
    case 25:
      expect("Reset(invalid)", m.Reset(BadP()), false, false, true);
      break;
  }
}
void ResetTo(int cfg, State& s, StrokeModeler& m, Ctx& ctx) {
  ctx.c.transitions++;
  absl::Status st = m.Reset(Cfgs()[cfg].p);
  ctx.Log("Reset(params %d) -> %s", cfg, Str(st).c_str());
  if (!st.ok()) return ctx.Fail("Reset(valid) returned %s", Str(st).c_str());
  s.cfg = cfg;
  s.stroke = false;
  s.saved = false;
}

void Visit(const State& s, Ctx& ctx) {
  uint64_t h = Mix(s.cfg + 1, s.stroke);
  h = s.stroke ? HashInput(h, s.last) : h;
  h = Mix(h, s.saved ? 1 + s.saved_stroke : 0);
  if (s.saved && s.saved_stroke) h = HashInput(h, s.saved_last);
  ctx.State(h);
}

void Seq(uint64_t i, Ctx& ctx, int depth, int n_cfg_first) {
  Pick pick(i);
  State s;
  StrokeModeler m;
  int rejections = 0;
  // start: uninitialized, or initialized with a stroke just begun
  int start = pick(n_cfg_first);
  if (start > 0) {
    ResetTo((start - 1) % 3, s, m, ctx);
    Step(0, s, m, ctx, rejections);
  }
  for (int d = 0; d < depth && !ctx.failed; ++d) {
    int op = pick(kOps + 2);
    if (op < kOps) Step(op, s, m, ctx, rejections);
    else ResetTo(op - kOps, s, m, ctx);
    Visit(s, ctx);
  }
  if (rejections) ctx.c.nontrivial++;
}

// The same after strokes of various lengths, finished or not.
void Long(uint64_t i, Ctx& ctx, int depth) {
  static const int kLens[] = {2, 3, 5, 10, 11, 12, 20, 21, 22, 41};
  Pick pick(i);
  State s;
  StrokeModeler m;
  int rejections = 0;
  ResetTo(pick(3), s, m, ctx);
  int len = kLens[pick(10)];
  bool save = pick(2);
  Step(0, s, m, ctx, rejections);
  for (int k = 1; k < len && !ctx.failed; ++k) {
    if (save && k == len - 1) Step(22, s, m, ctx, rejections);
    Step(k % 7 == 5 ? 4 : 1, s, m, ctx, rejections);
  }
  for (int d = 0; d < depth && !ctx.failed; ++d) {
    int op = pick(kOps + 2);
    if (op < kOps) Step(op, s, m, ctx, rejections);
    else ResetTo(op - kOps, s, m, ctx);
    Visit(s, ctx);
  }
  if (rejections) ctx.c.nontrivial++;
}

// Inputs that differ from the last one in one or two fields, by as little as
// possible or as much as possible.
constexpr int kTweaks = 17;
template <typename T>
void Tweak(int k, T& x) {
  using L = std::numeric_limits<T>;
  switch (k) {
    case 0: break;
    case 1: x = std::nextafter(x, L::infinity()); break;
    case 2: x = std::nextafter(x, -L::infinity()); break;
    case 3: x += (T)1e-6; break;
    case 4: x -= (T)1e-6; break;
    case 5: x += (T)1e-3; break;
    case 6: x -= (T)1e-3; break;
    case 7: x = L::infinity(); break;
    case 8: x = -L::infinity(); break;
    case 9: x = L::quiet_NaN(); break;
    case 10: x = L::max(); break;
    case 11: x = L::lowest(); break;
    case 12: x = -x; break;
    case 13: x = 0; break;
    case 14: x = -1; break;
    case 15: x += (T)1e-9; break;
    case 16: x -= (T)1e-12; break;
  }
}
constexpr int kBases = 7, kHistories = 7, kPairs = 21;
void Neighbours(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  int base = pick(kBases), hist = pick(kHistories);
  static const ET kTypes[] = {ET::kDown, ET::kMove, ET::kUp, static_cast<ET>(3),
                              static_cast<ET>(-1), static_cast<ET>(1 << 30)};
  ET type = kTypes[pick(6)];
  int k1 = pick(kTweaks), k2 = pick(kTweaks);
  int pair = pick(kPairs), f1 = 0, f2 = 0;
  for (f1 = 0; pair >= 6 - f1; ++f1) pair -= 6 - f1;
  f2 = f1 + pair;
  static const Input kB[kBases] = {
      In(ET::kDown, 1.5f, -2.25f, 8, .5f, .25f, 1),  In(ET::kDown, 0, 0, 0, 0, 0, 0),
      In(ET::kDown, -1, -1, -4, -1, -1, -1),         In(ET::kDown, 1e-40f, -0.f, 1.7e9, .5f, .25f, 1),
      In(ET::kDown, 1000.1f, .7f, 1e-9, 1, -1, 6.3f), In(ET::kDown, .1f, .2f, -.3, kNaN, .5f, -1),
      In(ET::kDown, 3, 4, 86400.125, 2, 3, 100)};
  Input b = kB[base];
  State s;
  StrokeModeler m;
  int rejections = 0;
  Results v;
  auto update = [&](Input in) {
    ctx.c.transitions++;
    ctx.c.compared += 2;
    Allowed a = Decide(s, in);
    absl::Status st = m.Update(in, v);
    ctx.Log("Update(%s) -> %s", Str(in).c_str(), Str(st).c_str());
    int c = (int)st.code();
    if (!((c == kOk && a.ok) || (c == kPre && a.pre) || (c == kArg && a.arg)))
      return ctx.Fail("Update(%s) returned \"%s\", expected%s%s%s (stroke %s, last input %s)",
                      Str(in).c_str(), Str(st).c_str(), a.ok ? " OK" : "",
                      a.pre ? " FAILED_PRECONDITION" : "", a.arg ? " INVALID_ARGUMENT" : "",
                      s.stroke ? "in progress" : "not in progress", Str(s.last).c_str());
    if (c != kOk) ++rejections;
    // the public validation function: the input by itself
    int t = (int)in.event_type;
    bool valid = t >= 0 && t <= 2 && std::isfinite(in.position.x) && std::isfinite(in.position.y) &&
                 std::isfinite(in.time.Value());
    int vc = (int)sm::ValidateInput(in).code();
    if (vc != (valid ? kOk : kArg))
      return ctx.Fail("ValidateInput(%s) returned code %d", Str(in).c_str(), vc);
    if (c == kOk) {
      s.stroke = in.event_type != ET::kUp;
      s.last = in;
    }
  };
  ResetTo(base % 3, s, m, ctx);
  Input l = b;
  auto next = [&](ET e) {
    update([&] {
      Input x = l;
      x.event_type = e;
      if (e != ET::kDown) {
        x.position.x += .5f;
        x.time = Time(l.time.Value() + 1 / 64.);
      }
      l = x;
      return x;
    }());
  };
  // 0: no stroke yet; 1: just begun; 2: a few inputs; 3: ended; 4: ended, and
  // the next one begun earlier; 5: abandoned; 6: ended and restored
  if (hist >= 1) next(ET::kDown);
  if (hist >= 2) next(ET::kMove), next(ET::kMove);
  if (hist == 6) m.Save();
  State saved = s;
  if (hist == 3 || hist == 4 || hist == 6) next(ET::kUp);
  if (hist == 4) l = b, l.time = Time(b.time.Value() - 1), next(ET::kDown);
  if (hist == 5) {
    absl::Status st = m.Reset();
    if (!st.ok()) return ctx.Fail("Reset() returned %s", Str(st).c_str());
    s.stroke = false;
  }
  if (hist == 6) m.Restore(), s = saved, l = s.last;
  if (ctx.failed) return;
  Input in = l;
  in.event_type = type;
  double t = in.time.Value();
  float* fl[] = {&in.position.x, &in.position.y, &in.pressure, &in.tilt, &in.orientation};
  auto tweak = [&](int f, int k) {
    if (f == 5) Tweak(k, t);
    else Tweak(k, *fl[f]);
  };
  tweak(f1, k1);
  if (f2 != f1) tweak(f2, k2);
  in.time = Time(t);
  update(in);
  if (ctx.failed) return;
  Visit(s, ctx);
  // where that leaves the modeler
  l = s.stroke ? s.last : b;
  if (!s.stroke || std::fabs(s.last.position.x) < 1e30 && std::fabs(s.last.position.y) < 1e30) {
    Input x = l;
    x.event_type = ET::kMove;
    x.time = Time(l.time.Value() + 1 / 64.);
    x.position = {l.position.x - .5f, l.position.y + .5f};
    if (std::fabs(l.time.Value()) < 1e12) update(x);
    x.event_type = ET::kDown;
    if (!ctx.failed) update(x);
  }
  if (rejections) ctx.c.nontrivial++;
}

// Large positions with which nothing overflows are accepted like any others.
const float kMag[] = {0, 1, 1e4f, 1e8f, 1e12f, 1e16f, 1e18f, 1e19f, 3e20f, 1e24f, 1e28f, 1e32f};
constexpr int kMags = 12;
void Large(uint64_t i, Ctx& ctx, int moves) {
  Pick pick(i);
  State s;
  StrokeModeler m;
  int rejections = 0;
  ResetTo(pick(3), s, m, ctx);
  double t = 8;
  for (int k = 0; k <= moves && !ctx.failed; ++k) {
    float x = kMag[pick(kMags)], y = kMag[pick(kMags)];
    if (k > 0 && k % 2) x = -x;
    Input in = In(k == 0 ? ET::kDown : k == moves ? ET::kUp : ET::kMove, x, y, t, .5f, .5f, .5f);
    t += (k % 2 ? 1 / 64. : 1 / 200.);
    ctx.c.transitions++;
    ctx.c.compared++;
    Results v;
    Allowed a = Decide(s, in);
    absl::Status st = m.Update(in, v);
    ctx.Log("Update(%s) -> %s", Str(in).c_str(), Str(st).c_str());
    if (st.ok() != a.ok)
      return ctx.Fail("Update(%s) returned \"%s\", although nothing overflows (last input %s)", Str(in).c_str(), Str(st).c_str(), Str(s.last).c_str());
    s.stroke = in.event_type != ET::kUp;
    s.last = in;
    Visit(s, ctx);
  }
  ctx.c.nontrivial++;
}

// Many inputs in a stroke, and many strokes.
void Endurance(uint64_t i, Ctx& ctx, int n) {
  Pick pick(i);
  State s;
  StrokeModeler m;
  int rejections = 0;
  ResetTo(pick(3), s, m, ctx);
  const int lens[] = {3, 40, 1 << 30};
  int len = std::min(lens[pick(3)], n);
  const int every[] = {1, 7, 100, 1 << 30};
  int bad = every[pick(4)];
  const int kBad[] = {0, 3, 5, 8, 11, 14, 20, 25};
  int b = kBad[pick(8)], between = pick(4);
  for (int k = 0, in = 0; k < n && !ctx.failed; ++k) {
    if (in == 0) {
      if (k % 3 == 1) s.last.position = {k % 100 * .1f, 2};
      Step(0, s, m, ctx, rejections);
    }
    else if (in == len - 1 || k == n - 1) Step(2, s, m, ctx, rejections);
    else Step(k % 7 == 5 ? 4 : k % 11 == 7 ? 13 : 1, s, m, ctx, rejections);
    in = in == len - 1 ? 0 : in + 1;
    if (s.stroke && std::fabs(s.last.position.x) > 1e3f) {  // back
      Input back = In(ET::kMove, 1, 2, s.last.time.Value() + 1 / 64.);
      Results v;
      ctx.c.transitions++;
      if (!m.Update(back, v).ok()) return ctx.Fail("Update(%s) was rejected", Str(back).c_str());
      s.last = back;
    }
    if (s.stroke && k % bad == 0) Step(b, s, m, ctx, rejections);
    if (between == 1) Step(21, s, m, ctx, rejections);
    if (between == 2 && k % 5 == 0) Step(22, s, m, ctx, rejections);
    if (between == 3 && k % 5 == 0) Step(22, s, m, ctx, rejections), Step(k % 2 ? 1 : 2, s, m, ctx, rejections), Step(23, s, m, ctx, rejections);
    if (k % 100 == 0) Visit(s, ctx);
  }
  if (rejections) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a sequence of calls decoded from its index; non-trivial: at least one call of it had to be rejected, and was (in the last space: none had to be)");
  int d1 = thorough ? 6 : 5, d2 = thorough ? 4 : 3;
  std::vector<Space> v;
  v.push_back({"sequences",
               "all sequences of " + std::to_string(d1) + " of 30 calls (valid, duplicate, equal-time, backwards, non-finite, unknown, too far, exactly at the limit, enormous; Predict, Save, Restore, Reset in four forms), uninitialized or just after a Down",
               2 * Pow(kOps + 2, d1), [=](uint64_t i, Ctx& c) { Seq(i, c, d1, 2); }});
  v.push_back({"sequences-other-configs", "the same, one shorter, for all three configurations",
               4 * Pow(kOps + 2, d1 - 1), [=](uint64_t i, Ctx& c) { Seq(i, c, d1 - 1, 4); }});
  v.push_back({"after-long-strokes", "all sequences of " + std::to_string(d2) + " calls after strokes of 2 to 41 inputs",
               3 * 10 * 2 * Pow(kOps + 2, d2), [=](uint64_t i, Ctx& c) { Long(i, c, d2); }});
  v.push_back({"neighbours", "after 7 histories of 8 strokes, all inputs that differ from the last one in up to two fields, by 17 tweaks each (neighbouring values, tiny and small steps, non-finite, largest, zero, negated), 6 event types (3 unknown), and what follows; ValidateInput too",
               kBases * kHistories * 6 * kTweaks * kTweaks * kPairs, [=](uint64_t i, Ctx& c) { Neighbours(i, c); }});
  int lm = thorough ? 3 : 2;
  v.push_back({"large", "all strokes of " + std::to_string(lm + 1) + " inputs with coordinates of 12 magnitudes from 0 to 1e32, 3 configurations",
               3 * Pow(kMags * kMags, lm + 1), [=](uint64_t i, Ctx& c) { Large(i, c, lm); }});
  int en = thorough ? 60000 : 6000;
  v.push_back({"endurance", std::to_string(en) + " inputs in one stroke, in strokes of 40 or of 3; a rejected call of 8 kinds after every one, every 7th, every 100th or none; Predict, Save or Save, input and Restore in between",
               3 * 3 * 4 * 8 * 4, [=](uint64_t i, Ctx& c) { Endurance(i, c, en); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C01", Make); }
