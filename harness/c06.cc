// C06: modelers are independent of each other and deterministic.
//
// What each script of calls gives on its own is computed in a process of its
// own. Then every interleaving of two scripts (three in one space) is run in one
// process, each script on its own modeler.
//
// With --threads (built with ThreadSanitizer) every pair of scripts is run by
// two threads: if no two calls on different modelers touch the same memory, all
// finer interleavings are equivalent to the ones enumerated here, and a
// conflicting access is reported in whichever order it happens to occur.
#include <cstdlib>
#include <thread>
#include <type_traits>

#include "script.h"

using namespace vx;

namespace {

const std::vector<Config>& Cfgs() {
  static auto* v = new std::vector<Config>(StageConfigs());
  return *v;
}

// Short scripts of exactly 6 calls.
std::vector<Script> ShortScripts() {
  std::vector<Script> out;
  for (int cfg = 0; cfg < (int)Cfgs().size(); ++cfg) {
    for (int variant = 0; variant < 4; ++variant) {
      Script s;
      Stroke st = MakeStroke((cfg + variant * 2) % kNumShapes, (cfg + variant) % kNumTimings,
                             variant == 1 ? kAllUnknown : variant, 12);
      auto up = [&](int j) {
        Call c{1, 0, st[j]};
        s.push_back(c);
      };
      s.push_back({0, cfg});
      up(0);
      switch (variant) {
        case 0: up(1); up(2); s.push_back({2}); up(11); break;
        case 1: up(1); s.push_back({3}); up(2); s.push_back({4}); break;
        case 2: up(5); up(6); up(7); s.push_back({2}); break;
        case 3: s.push_back({5}); up(0); up(3); s.push_back({2}); break;
      }
      out.push_back(s);
    }
  }
  return out;
}
// Long scripts: whole strokes with predictions.
std::vector<Script> LongScripts(int len) {
  std::vector<Script> out;
  for (int cfg = 0; cfg < (int)Cfgs().size(); ++cfg) {
    for (int variant = 0; variant < 2; ++variant) {
      Script s;
      s.push_back({0, cfg});
      Stroke st = MakeStroke((cfg * 2 + variant * 3) % kNumShapes, (cfg + variant) % kNumTimings,
                             variant ? kWrapOrient : (cfg % 2 ? kAllKnown : kPressureLost), len);
      for (int j = 0; j < len; ++j) {
        s.push_back({1, 0, st[j]});
        if (j % 4 == 3) s.push_back({2});
        if (variant && j == len / 2) s.push_back({3});
        if (variant && j == len / 2 + 3) s.push_back({4});
      }
      out.push_back(s);
    }
  }
  return out;
}

struct Set {
  const std::vector<Config>* cfgs;
  std::vector<Script> scripts;
  std::vector<std::vector<uint64_t>> alone;
};
Set MakeSet(std::vector<Script> v, const std::vector<Config>* cfgs = &Cfgs()) {
  Set s;
  s.cfgs = cfgs;
  s.scripts = std::move(v);
  for (auto& x : s.scripts) s.alone.push_back(Alone(x, *cfgs));
  return s;
}

// Runs the scripts in the order given by `who`.
void Run(const Set& set, const std::vector<int>& which, const std::function<int(const std::vector<size_t>&)>& who, Ctx& ctx) {
  std::vector<StrokeModeler> m(which.size());
  std::vector<size_t> pc(which.size(), 0);
  uint64_t h = 17;
  for (int w : which) h = Mix(h, w);
  for (;;) {
    int k = who(pc);
    if (k < 0) break;
    const Script& s = set.scripts[which[k]];
    uint64_t r = DoCall(m[k], s[pc[k]], *set.cfgs);
    ctx.c.transitions++;
    ctx.c.compared++;
    ctx.Log("modeler %d: %s", k, Str(s[pc[k]]).c_str());
    if (r != set.alone[which[k]][pc[k]])
      return ctx.Fail("call %zu of modeler %d (%s) gave another result than the same calls in a process of their own", pc[k], k, Str(s[pc[k]]).c_str());
    pc[k]++;
    uint64_t st = h;
    for (size_t p : pc) st = Mix(st, p);
    ctx.State(st);
  }
  ctx.c.nontrivial++;
}

// The idx-th way to interleave a and b calls; as a bit mask over a+b positions.
uint64_t Binom(int n, int k) {
  uint64_t r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
std::vector<int> Interleaving(uint64_t idx, int a, int b) {
  std::vector<int> v;
  while (a + b > 0) {
    uint64_t first = a > 0 ? Binom(a + b - 1, b) : 0;
    if (idx < first) {
      v.push_back(0);
      --a;
    } else {
      idx -= first;
      v.push_back(1);
      --b;
    }
  }
  return v;
}

// The modeler is moved before call `at` (before every call if at < 0).
template <typename M>
void Moved(const Set& set, int a, int b, int at, int how, Ctx& ctx) {
  if constexpr (std::is_move_constructible_v<M> && std::is_move_assignable_v<M>) {
    alignas(M) static thread_local char room[2][sizeof(M)];
    M* m = new (room[0]) M;
    int where = 0;
    M other;
    const Script &s = set.scripts[a], &t = set.scripts[b];
    for (size_t i = 0; i < s.size(); ++i) {
      if (at < 0 || (int)i == at) {
        if (how == 0) {  // elsewhere, as in a vector that grows
          where = 1 - where;
          M* to = new (room[where]) M(std::move(*m));
          m->~M();
          memset(room[1 - where], 0xab, sizeof(M));
          m = to;
        } else if (how == 1) {  // over another one, and back
          for (size_t j = 0; j < t.size() * 2 / 3; ++j) DoCall(other, t[j], *set.cfgs);
          other = std::move(*m);
          *m = std::move(other);
        } else {  // exchanged with one that is used as well
          M third;
          size_t j = 0;
          for (; j < t.size() * 2 / 3; ++j) DoCall(third, t[j], *set.cfgs);
          std::swap(*m, third);
          std::swap(third, other);
          for (; j < t.size(); ++j)
            if (DoCall(*m, t[j], *set.cfgs) != set.alone[b][j]) {
              ctx.Fail("call %zu (%s) after a swap gave another result than the same calls on one modeler", j, Str(t[j]).c_str());
              break;
            }
          *m = std::move(other);
          other = M();
          ctx.c.transitions += t.size();
        }
      }
      ctx.c.transitions++;
      ctx.c.compared++;
      ctx.Log("%s%s", at < 0 || (int)i == at ? "moved; " : "", Str(s[i]).c_str());
      ctx.State(Mix(Mix(a * 64 + b, i), at));
      if (DoCall(*m, s[i], *set.cfgs) != set.alone[a][i]) {
        ctx.Fail("call %zu (%s) after a move gave another result than the same calls on one modeler", i, Str(s[i]).c_str());
        break;
      }
    }
    m->~M();
    ctx.c.nontrivial++;
  }
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a pair (triple) of call scripts and an interleaving of their calls; non-trivial: all calls of all modelers were made and compared");
  std::vector<Space> v;
  auto* sh = new Set(MakeSet(ShortScripts()));
  uint64_t n = sh->scripts.size();
  v.push_back({"all-interleavings", "all 924 interleavings of all ordered pairs of 24 scripts of 6 calls",
               n * n * Binom(12, 6), [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int a = pick(n), b = pick(n);
                 std::vector<int> order = Interleaving(pick.rest(), 6, 6);
                 size_t k = 0;
                 Run(*sh, {a, b}, [&](const std::vector<size_t>&) { return k < order.size() ? order[k++] : -1; }, c);
               }});
  int len = thorough ? 44 : 30;
  auto* lo = new Set(MakeSet(LongScripts(len)));
  uint64_t nl = lo->scripts.size();
  uint64_t maxc = 0;
  for (auto& s : lo->scripts) maxc = std::max<uint64_t>(maxc, s.size());
  v.push_back({"two-switches", "all schedules with up to three switches between two whole strokes (first to call i, second to call j, first to its end, second to its end), all ordered pairs of 12 strokes of " + std::to_string(len) + " inputs",
               nl * nl * (maxc + 1) * (maxc + 1), [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int a = pick(nl), b = pick(nl);
                 size_t p = pick(maxc + 1), q = pick(maxc + 1);
                 size_t na = lo->scripts[a].size(), nb = lo->scripts[b].size();
                 if (p > na || q > nb) return;
                 int phase = 0;
                 Run(*lo, {a, b}, [&](const std::vector<size_t>& pc) {
                   if (phase == 0) { if (pc[0] < p) return 0; phase = 1; }
                   if (phase == 1) { if (pc[1] < q) return 1; phase = 2; }
                   if (phase == 2) { if (pc[0] < na) return 0; phase = 3; }
                   return pc[1] < nb ? 1 : -1;
                 }, c);
               }});
  v.push_back({"alternating", "strict alternation with every offset, all ordered pairs", nl * nl * (maxc + 1), [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int a = pick(nl), b = pick(nl);
                 size_t off = pick(maxc + 1);
                 size_t na = lo->scripts[a].size(), nb = lo->scripts[b].size();
                 bool turn = false;
                 Run(*lo, {a, b}, [&](const std::vector<size_t>& pc) {
                   if (pc[0] < off && pc[0] < na) return 0;
                   turn = !turn;
                   if (pc[0] >= na && pc[1] >= nb) return -1;
                   if (pc[0] >= na) return 1;
                   if (pc[1] >= nb) return 0;
                   return turn ? 1 : 0;
                 }, c);
               }});
  v.push_back({"three-modelers", "round robin of three modelers in all orders, all triples of strokes", nl * nl * nl * 6, [=](uint64_t i, Ctx& c) {
                 static const int kPerm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
                 Pick pick(i);
                 std::vector<int> w = {(int)pick(nl), (int)pick(nl), (int)pick(nl)};
                 int perm = pick(6);
                 int k = 0;
                 Run(*lo, w, [&](const std::vector<size_t>& pc) {
                   for (int tries = 0; tries < 3; ++tries) {
                     int x = kPerm[perm][k++ % 3];
                     if (pc[x] < lo->scripts[w[x]].size()) return x;
                   }
                   return -1;
                 }, c);
               }});
  v.push_back({"moved", "the modeler is moved elsewhere, over another one and back, or swapped with one in use, before any one call or before each call of all of these strokes", nl * nl * (maxc + 2) * 3, [=](uint64_t i, Ctx& c) {
                 Pick pick(i);
                 int a = pick(nl), b = pick(nl), at = (int)pick(maxc + 2) - 1, how = pick(3);
                 if (at >= (int)lo->scripts[a].size() || (how == 0 && b)) return;
                 Moved<StrokeModeler>(*lo, a, b, at, how, c);
               }});
  // The parameter sets differ in one parameter.
  for (int base = 0; base < 3; ++base) {
    auto* cfgs = new std::vector<Config>(OneFieldVariants(base));
    uint64_t nc = cfgs->size(), ns = kNumShapes * (thorough ? kNumTimings : 2);
    std::vector<Script> all;
    for (uint64_t k = 0; k < ns; ++k)
      for (uint64_t p = 0; p < nc; ++p) all.push_back(StrokeScript(p, k % kNumShapes, k / kNumShapes, 28));
    auto* set = new Set(MakeSet(all, cfgs));
    v.push_back({base == 2 ? "stages" : base ? "one-parameter-plain" : "one-parameter", std::string(base == 2 ? "(all combinations of stages) " : "") + "the same stroke on two modelers whose parameters differ from each other in one or two of " + std::to_string(base == 2 ? nc : nc - 1) + " ways; one after the other, the second between the halves of the first, and in turns; " + std::to_string(ns) + " strokes",
                 nc * nc * ns * 3, [=](uint64_t i, Ctx& c) {
                   Pick pick(i);
                   int a = pick(nc), b = pick(nc), k = pick(ns), how = pick(3);
                   int wa = k * nc + a, wb = k * nc + b;
                   size_t na = set->scripts[wa].size(), nb = set->scripts[wb].size();
                   bool turn = false;
                   Run(*set, {wa, wb}, [&](const std::vector<size_t>& pc) {
                     if (how == 0) return pc[0] < na ? 0 : pc[1] < nb ? 1 : -1;
                     if (how == 1) return pc[0] < na / 2 ? 0 : pc[1] < nb ? 1 : pc[0] < na ? 0 : -1;
                     turn = !turn;
                     if (pc[0] >= na) return pc[1] < nb ? 1 : -1;
                     if (pc[1] >= nb) return 0;
                     return turn ? 0 : 1;
                   }, c);
                 }});
  }
  return v;
}

int Threads() {
  std::vector<Script> scripts = ShortScripts();
  for (auto& s : LongScripts(30)) scripts.push_back(s);
  int pairs = 0;
  for (size_t a = 0; a < scripts.size(); ++a)
    for (size_t b = a; b < scripts.size(); ++b) {
      auto body = [](const Script* s) {
        StrokeModeler m;
        for (const Call& c : *s) DoCall(m, c, Cfgs());
      };
      std::thread x(body, &scripts[a]), y(body, &scripts[b]);
      x.join();
      y.join();
      ++pairs;
    }
  printf("threads: %d pairs of scripts without a conflicting access\n", pairs);
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "--threads") {
    Cfgs();
    return Threads();
  }
  return Main(argc, argv, "C06", Make);
}
