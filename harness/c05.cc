// C05: strokes do not influence each other.
#include "hist.h"
#include "script.h"
#include "variants.h"

using namespace vx;

namespace {

Oracle& O() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : StageConfigs()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}

constexpr int kEnds = 9;
// Ends the stroke in progress in one of many ways.
void End(int how, Sim& s, int cfg2) {
  if (!s.ok()) return;
  bool st = s.in_stroke();
  Input l = st ? s.last() : In(ET::kMove, 0, 0, 5, .5f);
  Input up = In(ET::kUp, l.position.x + .7f, l.position.y + .1f, l.time.Value() + .011, .9f, .9f, .9f);
  switch (how) {
    case 0: s.Update(up); break;
    case 1: s.ResetKeep(); break;
    case 2: s.Reset(s.param()); break;
    case 3: s.Update(up); s.Reset(cfg2); break;
    case 4: s.Reset(cfg2); break;
    case 5:
      s.Save();
      s.Update(In(ET::kMove, l.position.x + 9, l.position.y, l.time.Value() + .1, -1, kNaN, -1));
      s.Restore();
      s.Update(up);
      break;
    case 6: s.Update(up); s.Restore(); s.Update(In(ET::kMove, 1, 1, 1)); s.Save(); break;
    case 7: s.Predict(); s.Save(); s.Update(up); s.Restore(); s.ResetKeep(); break;
    case 8: {
      Input u = l;
      u.event_type = ET::kUp;
      s.Update(u);
      s.Update(In(ET::kUp, 3, 3, 1e9));
      s.Predict();
      break;
    }
  }
}

Stroke Shifted(Stroke s, double dt) {
  for (Input& i : s) i.time = Time(i.time.Value() + dt);
  return s;
}

void Two(uint64_t i, Ctx& ctx, bool thorough) {
  static const int kLens[] = {1, 2, 4, 9, 25};
  Pick pick(i);
  int cfg = pick(O().NumParams()), cfg2 = pick(O().NumParams());
  int how = pick(kEnds);
  int len = kLens[pick(5)];
  int shape = pick(kNumShapes);
  int stylus = pick(3);
  int second = pick(kNumShapes);
  int timing = pick(kNumTimings);
  Stroke a = MakeStroke(shape, (timing + shape) % kNumTimings, (int[]){kAllUnknown, kAllKnown, kNaNTilt}[stylus], 40);
  Stroke b = Shifted(MakeStroke(second, timing, (int[]){kAllKnown, kWrapOrient, kPressureLost}[stylus], 14),
                     (second % 3 - 1) * 2.);  // earlier, same time, later
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len; ++j) s.Update(a[j]);
  End(how, s, cfg2);
  for (size_t j = 0; j < b.size() && s.ok(); ++j) {
    s.Update(b[j]);
    if (j == 0 || j == 4 || j == 9 || j == 12) s.Predict();
  }
  ctx.c.nontrivial++;
}

// The same stroke again, and strokes that start where (and when) the last ended.
void Again(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int shape = pick(kNumShapes), timing = pick(kNumTimings), stylus = pick(kNumStylus);
  static const int kLens[] = {2, 3, 5, 11, 21, 4, 6, 7, 8, 9, 10, 12, 13, 15, 20, 22, 23, 25};
  int how = pick(kEnds);
  int mode = pick(3);
  int len = kLens[pick(18)];
  Stroke a = MakeStroke(shape, timing, stylus, 40);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len; ++j) s.Update(a[j]);
  Input l = s.in_stroke() ? s.last() : a[0];
  End(how, s, (cfg + 1) % O().NumParams());
  if (mode == 0) {
    for (int j = 0; j < len; ++j) s.Update(a[j]);
    s.Predict();
  } else {
    Input d = l;
    d.event_type = ET::kDown;
    if (mode == 2) d.time = Time(l.time.Value() - 50);
    s.Update(d);
    s.Predict();
    for (int j = 0; j < 6; ++j) {
      Input m = a[j + 3];
      m.event_type = ET::kMove;
      m.time = Time(d.time.Value() + .009 * (j + 1));
      s.Update(m);
    }
    s.Predict();
    Input u = s.last();
    u.event_type = ET::kUp;
    s.Update(u);
  }
  ctx.c.nontrivial++;
}

// Three strokes, all short kinds.
constexpr int kSeqOps = 12;
void Seq(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  Sim s(O(), ctx);
  s.Reset(pick(O().NumParams()));
  int ends = 0;
  for (int d = 0; d < depth && s.ok(); ++d) {
    bool st = s.in_stroke();
    double t = st ? s.last().time.Value() : 3;
    Vec2 p = st ? s.last().position : Vec2{1, 2};
    switch (pick(kSeqOps)) {
      case 0: s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f)); break;
      case 1: s.Update(In(ET::kDown, -3, 7, 1, -1, -1, -1)); break;
      case 2: s.Update(In(ET::kMove, p.x + .5f, p.y + .2f, t + .008, .6f, .5f, 2.f)); break;
      case 3: s.Update(In(ET::kMove, p.x - .1f, p.y + .9f, t + .021, -1, .9f, 5.9f)); break;
      case 4: s.Update(In(ET::kUp, p.x + .2f, p.y - .2f, t + .013, .5f, .1f, .3f)); ends += st; break;
      case 5: s.Update(In(ET::kUp, p.x, p.y, t, .5f, .1f, .3f)); ends += st; break;
      case 6: s.ResetKeep(); ends += st; break;
      case 7: s.Reset(s.param()); ends += st; break;
      case 8: s.Reset((s.param() + 1) % O().NumParams()); ends += st; break;
      case 9: s.Predict(); break;
      case 10: s.Save(); break;
      case 11: s.Restore(); break;
    }
  }
  if (!s.in_stroke()) s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f));
  if (s.ok()) {
    Input l = s.last();
    for (int k = 1; k <= 4; ++k) {
      s.Update(In(ET::kMove, l.position.x + .3f * k, l.position.y + .1f * k * k, l.time.Value() + .009 * k, .5f, .4f, .3f));
      s.Predict();
    }
    s.Update(In(ET::kUp, l.position.x + 1, l.position.y, l.time.Value() + .05, .5f, .4f, .3f));
  }
  if (ends) ctx.c.nontrivial++;
}

// Many strokes with one modeler (anything that accumulates).
void Many(uint64_t i, Ctx& ctx, int n) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int step = 1 + pick(30);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int k = 0; k < n && s.ok(); ++k) {
    int kind = (k * step + cfg) % (kNumShapes * kNumTimings * kNumStylus);
    Stroke a = MakeStroke(kind % kNumShapes, kind / kNumShapes % kNumTimings,
                          kind / kNumShapes / kNumTimings, 3 + kind % 23);
    for (const Input& in : a) s.Update(in);
    s.Predict();
  }
  ctx.c.nontrivial++;
}

// The parameters of the earlier stroke differ in one parameter (or two); what the
// stroke gives comes from a process of its own.
struct OneField {
  std::vector<Config> cfgs;
  std::vector<Script> scripts;
  std::vector<std::vector<uint64_t>> alone;
};
void Params(uint64_t i, Ctx& ctx, const OneField& o, uint64_t ns) {
  Pick pick(i);
  uint64_t nc = o.cfgs.size();
  int a = pick(nc), b = pick(nc), k = pick(ns);
  int first = pick(3), cut = pick(2);
  const Script& s1 = o.scripts[(first == 0 ? k : (k + first * 2) % ns) * nc + a];
  const Script& s2 = o.scripts[k * nc + b];
  const auto& want = o.alone[k * nc + b];
  StrokeModeler m;
  // The earlier stroke is finished, or abandoned by the Reset.
  size_t n1 = cut ? s1.size() * 3 / 5 : s1.size();
  ctx.Log("earlier stroke with parameters changed: %s", o.cfgs[a].name.c_str());
  for (size_t j = 0; j < n1; ++j) DoCall(m, s1[j], o.cfgs);
  ctx.Log("then parameters: %s", o.cfgs[b].name.c_str());
  for (size_t j = 0; j < s2.size(); ++j) {
    ctx.Log("%s", Str(s2[j]).c_str());
    ctx.c.transitions++;
    ctx.c.compared++;
    if (DoCall(m, s2[j], o.cfgs) != want[j])
      return ctx.Fail("call %zu of the second stroke (%s; parameters: %s, before: %s) gave another result than in a process of its own", j,
                      Str(s2[j]).c_str(), o.cfgs[b].name.c_str(), o.cfgs[a].name.c_str());
    ctx.State(Mix(Mix(a * 64 + b, k), j));
  }
  ctx.c.nontrivial++;
}

// Strokes one after the other under many different parameters.
Oracle& VO() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : Variants()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}
void Parameters(uint64_t i, Ctx& ctx, bool thorough) {
  Pick pick(i);
  int cfg = pick(VO().NumParams());
  int second = pick(kNumShapes), timing = pick(kNumTimings), first = pick(kNumShapes);
  int end = pick(4), len = (int[]){14, 3, 5, 30}[pick(thorough ? 4 : 2)];
  Sim s(VO(), ctx);
  s.Reset(cfg);
  for (int k = 0; k < 3; ++k) {
    int shape = k == 2 ? second : k ? (first + second) % kNumShapes : first;
    Stroke st = MakeStroke(shape, k == 2 ? timing : (timing + first + k) % kNumTimings, (shape + k) % kNumStylus, k == 2 ? 14 : len);
    for (size_t j = 0; j < st.size() && s.ok(); ++j) {
      s.Update(st[j]);
      if (j % 5 == 0) s.Predict();
      if (j == 2 && end == 3) s.Save();
      if (j == 5 && end == 3) s.Restore();
    }
    if (end == 1) s.ResetKeep();
    if (s.ok() && s.in_stroke()) {  // the Up was rejected
      Input up = s.last();
      up.event_type = ET::kUp;
      up.position.x += 1;
      s.Update(up);
    }
    if (s.ok() && s.in_stroke()) s.ResetKeep();
    if (end == 2) s.Restore();
  }
  ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a history of earlier strokes followed by a stroke, decoded from its index; non-trivial: the compared stroke came after at least one other one was ended");
  std::vector<Space> v;
  uint64_t np = O().NumParams();
  v.push_back({"two-strokes", "6 x 6 configurations, 120 first strokes, 9 ways to end them, 8 x timings second strokes",
               np * np * kEnds * 5 * kNumShapes * 3 * kNumShapes * (thorough ? kNumTimings : 2), [=](uint64_t i, Ctx& c) { Two(i, c, thorough); }});
  v.push_back({"again", "the same stroke again, or one that starts where or when the first ended: 248 strokes of " + std::string(thorough ? "18" : "5") + " lengths from 2 to 25 inputs, 9 endings",
               np * kNumShapes * kNumTimings * kNumStylus * kEnds * 3 * (thorough ? 18 : 5), [=](uint64_t i, Ctx& c) { Again(i, c); }});
  int d = thorough ? 7 : 5;
  v.push_back({"sequences", "all sequences of " + std::to_string(d) + " of 12 calls, then a stroke", np * Pow(kSeqOps, d), [=](uint64_t i, Ctx& c) { Seq(i, c, d); }});
  int ms = thorough ? 5000 : 600;
  v.push_back({"many-strokes", std::to_string(ms) + " strokes in a row, 30 orders", np * 30, [=](uint64_t i, Ctx& c) { Many(i, c, ms); }});
  v.push_back({"parameters", std::string("three strokes one after the other, with Reset, Save or Restore in between or not; ") + VX_VARIANTS_TEXT(VO().NumParams()),
               (uint64_t)VO().NumParams() * kNumShapes * kNumShapes * kNumTimings * 4 * (thorough ? 4 : 2), [=](uint64_t i, Ctx& c) { Parameters(i, c, thorough); }});
  for (int base = 0; base < 3; ++base) {
    auto* o = new OneField;
    o->cfgs = OneFieldVariants(base);
    uint64_t nc = o->cfgs.size(), ns = kNumShapes * (thorough ? kNumTimings : 1);
    for (uint64_t k = 0; k < ns; ++k)
      for (uint64_t p = 0; p < nc; ++p) {
        o->scripts.push_back(StrokeScript(p, k % kNumShapes, (k / kNumShapes + base + 1) % kNumTimings, 28));
        o->alone.push_back(Alone(o->scripts.back(), o->cfgs));
      }
    v.push_back({base == 2 ? "stages" : base ? "one-parameter-plain" : "one-parameter", std::string(base == 2 ? "(all combinations of stages) " : "") + "an earlier stroke with parameters that differ in one or two of " + std::to_string(base == 2 ? nc : nc - 1) + " ways, finished or abandoned; the same stroke or one of two others; " + std::to_string(ns) + " strokes",
                 nc * nc * ns * 6, [=](uint64_t i, Ctx& c) { Params(i, c, *o, ns); }});
  }
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C05", Make); }
