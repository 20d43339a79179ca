// C19: Update only appends, whatever the caller keeps in the vector.
#include "hist.h"
#include "variants.h"

using namespace vx;

namespace {

Oracle& O() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : StageConfigs()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}

constexpr int kActions = 12;
// What the caller does with the vector between two calls.
void Act(int a, Results& v, int j, const Input& next) {
  switch (a) {
    case 0: break;                                    // keep
    case 1: v.clear(); break;
    case 2: v.resize(v.size() / 2); break;            // truncate
    case 3: { Results taken = std::move(v); v = Results(); (void)taken; break; }
    case 4: v.assign(3, Sentinel(j)); break;          // unrelated contents
    case 5: v.clear(); v.shrink_to_fit(); v.reserve(1); break;
    case 100: case 101: case 102: case 103: {
      static const int n[] = {300, 1000, 12000, 100000};
      while ((int)v.size() < n[a - 100]) v.push_back(Sentinel((int)v.size()));
      break;
    }
    case 6: v.insert(v.begin(), Sentinel(j)); break;
    case 7: std::reverse(v.begin(), v.end()); break;  // reordered
    case 8: v.assign(70, Sentinel(j + 1)); v.shrink_to_fit(); break;
    case 9: case 10: case 11: {  // what some other stroke left there
      Result r;
      r.position = next.position;
      r.time = next.time + Duration(a == 9 ? 0 : a == 10 ? 1.5 : -1e5);
      r.pressure = next.pressure;
      r.tilt = next.tilt;
      r.orientation = next.orientation;
      v.push_back(r);
      break;
    }
  }
}

Oracle& VO() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : Variants()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}

void Run(const std::function<int(int)>& action, int cfg, const Stroke& st, Ctx& ctx, Oracle& orc = O()) {
  StrokeModeler m;
  (void)m.Reset(orc.Params(cfg));
  orc.MaybeClear();
  int node = orc.Root(cfg);
  Results v;
  for (size_t j = 0; j < st.size(); ++j) {
    int a = action((int)j);
    Act(a, v, (int)j, st[j]);
    Results before = v;
    absl::Status s = m.Update(st[j], v);
    ctx.c.transitions++;
    ctx.Log("vector action %d, Update(%s) with %zu elements -> %s, %zu elements", a, Str(st[j]).c_str(), before.size(), Str(s).c_str(), v.size());
    node = orc.Step(node, st[j]);
    const Expected& e = orc.At(node).e;
    ctx.State(Mix(orc.At(node).path, before.size() * 16 + a));
    if ((int)s.code() != e.code) return ctx.Fail("Update returned %s, but status %d with an empty vector", Str(s).c_str(), e.code);
    if (v.size() < before.size()) return ctx.Fail("Update removed elements");
    for (size_t k = 0; k < before.size(); ++k)
      if (!SameResult(before[k], v[k])) return ctx.Fail("Update changed element %zu of the vector from %s to %s", k, Str(before[k]).c_str(), Str(v[k]).c_str());
    ctx.c.compared += v.size() - before.size();
    if ((int)(v.size() - before.size()) != e.n || HashResults(v, before.size()) != e.hash) {
      Results out, pred;
      orc.Details(cfg, orc.At(node).parent, &st[j], out, pred);
      for (size_t k = 0; k < out.size() && before.size() + k < v.size(); ++k)
        if (!SameResult(out[k], v[before.size() + k]))
          return ctx.Fail("appended result %zu is %s, but %s with an empty vector", k, Str(v[before.size() + k]).c_str(), Str(out[k]).c_str());
      return ctx.Fail("%zu results appended, but %zu with an empty vector", v.size() - before.size(), out.size());
    }
  }
}

// Several strokes into one vector, each before, after or during the previous.
void Strokes(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams()), shape = pick(kNumShapes), timing = pick(kNumTimings);
  const double shift[] = {0, 100, -100, .0125};
  Stroke all;
  int acts[3], inside = pick(3);
  for (int k = 0; k < 3; ++k) {
    acts[k] = k ? pick(kActions) : 0;
    double d = k ? shift[pick(4)] : 0;
    for (Input in : MakeStroke((shape + k) % kNumShapes, timing, (shape + timing) % kNumStylus, len)) {
      in.time = in.time + Duration(d);
      all.push_back(in);
    }
  }
  const int in_act[] = {0, 1, 10};
  ctx.c.nontrivial++;
  Run([&](int j) { return j % len == 0 ? acts[j / len] : in_act[inside]; }, cfg, all, ctx);
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke and, before each Update, one of 12 things the caller does with the vector; non-trivial: all of them");
  std::vector<Space> v;
  uint64_t np = O().NumParams();
  int len = thorough ? 6 : 5;
  v.push_back({"all-patterns", "all patterns of 12 actions over " + std::to_string(len) + " inputs (two of them unobserved before), 16 strokes, 6 configurations",
               Pow(kActions, len) * np * kNumShapes * 2, [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 uint64_t pat = pick(Pow(kActions, len));
                 int cfg = pick(np), shape = pick(kNumShapes), timing = pick(2) ? kIrregular : kGaps;
                 c.c.nontrivial++;
                 Run([&](int j) { int a = pat % kActions; pat /= kActions; return j < len ? a : 0; }, cfg,
                     MakeStroke(shape, timing, shape % kNumStylus, len + 1), c);
               }});
  int ll = 44;
  v.push_back({"long", "one action at each position (others: always keep, or always clear) of 48 strokes of 44 inputs",
               (uint64_t)np * ll * kActions * 2 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int cfg = pick(np), at = pick(ll), a = pick(kActions), base = pick(2), shape = pick(kNumShapes), timing = pick(kNumTimings);
                 c.c.nontrivial++;
                 Run([&](int j) { return j == at ? a : base; }, cfg, MakeStroke(shape, timing, (shape + timing) % kNumStylus, ll), c);
               }});
  int pl = thorough ? 30 : 9;
  uint64_t nv = VO().NumParams();
  v.push_back({"parameters", "one action at each position (others: always keep, or always clear) of 8 strokes of " + std::to_string(pl) + " inputs and the Down of another; " + VX_VARIANTS_TEXT(nv),
               nv * pl * kActions * 2 * kNumShapes, [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int cfg = pick(nv), at = pick(pl), a = pick(kActions), base = pick(2), shape = pick(kNumShapes);
                 c.c.nontrivial++;
                 Stroke st = MakeStroke(shape, (shape + at) % kNumTimings, (shape + a) % kNumStylus, pl);
                 st.push_back(st[0]);
                 st.back().time = st[pl - 1].time;
                 Run([&](int j) { return j == at ? a : base; }, cfg, st, c, VO());
               }});
  v.push_back({"large", "300, 1000, 12000 or 100000 elements left in the vector before one of the inputs of 48 strokes of 9 inputs and the Down of another",
               (uint64_t)np * 10 * 4 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int cfg = pick(np), at = pick(10), size = pick(4), shape = pick(kNumShapes), timing = pick(kNumTimings);
                 c.c.nontrivial++;
                 Stroke st = MakeStroke(shape, timing, (shape + at) % kNumStylus, 9);
                 st.push_back(st[0]);
                 st.back().time = st[8].time;
                 Run([&](int j) { return j == at ? 100 + size : j == at + 1 ? 1 : 0; }, cfg, st, c);
               }});
  v.push_back({"strokes", "three strokes of 7 inputs into the same vector, each at the time of the first, later, earlier or slightly later, any action before each Down, 3 actions before the others",
               (uint64_t)np * kNumShapes * kNumTimings * 3 * Pow(kActions * 4, 2), [=](uint64_t i, Ctx& c) { Strokes(i, c, 7); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C19", Make); }
