// C18: the value types, over grids of values.
#include <sstream>

#include "common.h"

using namespace vx;

namespace {

const float kF[] = {0, -0.f, 1, -1, .1f, 1.0000001f, 3.4028235e38f, -2.5e-20f, 1e-45f, kInf, -kInf, kNaN};
constexpr int kNF = 12;
const double kD[] = {0, -0., 1, -1, .1, 1 + 2.3e-16, 1e308, -1e-300, 5e-324, 1e9 + .5, kDInf, -kDInf, kDNaN, 3, -7.25};
constexpr int kND = 15;

// Up to the last place, e.g. for a division by multiplication.
bool EqF(float a, float b) { return SameF(a, b) || (std::isfinite(a) && std::isfinite(b) && std::fabs((double)a - b) <= 2.5e-7 * std::fabs(b)); }
bool EqD(double a, double b) { return SameF(a, b) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 5e-16 * std::fabs(b)); }
bool Eq(Vec2 a, float x, float y) { return EqF(a.x, x) && EqF(a.y, y); }
#define CHECK(cond) do { ctx.c.compared++; if (!(cond)) return ctx.Fail("%s: %s", what, #cond); } while (0)

void Vectors(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  Vec2 a{kF[pick(kNF)], kF[pick(kNF)]}, b{kF[pick(kNF)], kF[pick(kNF)]};
  float s = kF[pick(kNF)];
  char what[200];
  snprintf(what, sizeof what, "a=(%.9g,%.9g) b=(%.9g,%.9g) s=%.9g", a.x, a.y, b.x, b.y, s);
  ctx.State(Mix(1, i));
  ctx.c.transitions++;
  ctx.c.nontrivial++;
  CHECK((a == b) == (a.x == b.x && a.y == b.y));
  CHECK((a != b) == !(a == b));
  CHECK(Eq(a + b, a.x + b.x, a.y + b.y));
  CHECK(Eq(a - b, a.x - b.x, a.y - b.y));
  CHECK(Eq(s * a, s * a.x, s * a.y));
  CHECK(Eq(a * s, a.x * s, a.y * s));
  CHECK(Eq(a / s, a.x / s, a.y / s));
  Vec2 c = a;
  Vec2& r1 = c += b;
  CHECK(&r1 == &c && Eq(c, a.x + b.x, a.y + b.y));
  c = a;
  Vec2& r2 = c -= b;
  CHECK(&r2 == &c && Eq(c, a.x - b.x, a.y - b.y));
  c = a;
  Vec2& r3 = c *= s;
  CHECK(&r3 == &c && Eq(c, a.x * s, a.y * s));
  c = a;
  Vec2& r4 = c /= s;
  CHECK(&r4 == &c && Eq(c, a.x / s, a.y / s));
  CHECK(a.IsFinite() == (std::isfinite(a.x) && std::isfinite(a.y)));
  double m = std::hypot((double)a.x, (double)a.y);
  CHECK(SameF(a.Magnitude(), (float)m) || std::fabs(a.Magnitude() - m) <= 1e-6 * m);
  double d = (double)a.x * b.x + (double)a.y * b.y;
  double scale = std::fabs((double)a.x * b.x) + std::fabs((double)a.y * b.y);
  float dot = Vec2::DotProduct(a, b);
  if (scale < 3e38) CHECK(std::fabs(dot - d) <= 1e-6 * scale + 1e-44);
  if (!a.IsFinite() || !b.IsFinite()) {
    auto r = a.AbsoluteAngleTo(b);
    CHECK(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument);
  } else {
    auto r = a.AbsoluteAngleTo(b);
    CHECK(r.ok() && *r >= 0 && *r <= (float)kPiD);
    if ((a.x == 0 && a.y == 0) || (b.x == 0 && b.y == 0)) CHECK(*r == 0);
  }
}

void Times(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  double a = kD[pick(kND)], b = kD[pick(kND)], s = kD[pick(kND)];
  char what[200];
  snprintf(what, sizeof what, "a=%.17g b=%.17g s=%.17g", a, b, s);
  ctx.State(Mix(2, i));
  ctx.c.transitions++;
  ctx.c.nontrivial++;
  Duration da(a), db(b);
  Time ta(a), tb(b);
  CHECK(SameF(da.Value(), a) && SameF(ta.Value(), a) && Duration().Value() == 0 && Time().Value() == 0);
  CHECK(EqD((da + db).Value(), a + b));
  CHECK(EqD((da - db).Value(), a - b));
  CHECK(EqD((da * s).Value(), a * s));
  CHECK(EqD((s * da).Value(), s * a));
  CHECK(EqD((da / s).Value(), a / s));
  CHECK(EqD((ta + db).Value(), a + b));
  CHECK(EqD((db + ta).Value(), a + b));
  CHECK(EqD((ta - db).Value(), a - b));
  CHECK(EqD((ta - tb).Value(), a - b));
  Duration d = da;
  CHECK(&(d += db) == &d && EqD(d.Value(), a + b));
  d = da;
  CHECK(&(d -= db) == &d && EqD(d.Value(), a - b));
  d = da;
  CHECK(&(d *= s) == &d && EqD(d.Value(), a * s));
  d = da;
  CHECK(&(d /= s) == &d && EqD(d.Value(), a / s));
  Time t = ta;
  CHECK(&(t += db) == &t && EqD(t.Value(), a + b));
  t = ta;
  CHECK(&(t -= db) == &t && EqD(t.Value(), a - b));
  CHECK((da == db) == (a == b));
  CHECK((da != db) == (a != b));
  CHECK((da < db) == (a < b));
  CHECK((da > db) == (a > b));
  CHECK((da <= db) == (a <= b));
  CHECK((da >= db) == (a >= b));
  CHECK((ta == tb) == (a == b));
  CHECK((ta != tb) == (a != b));
  CHECK((ta < tb) == (a < b));
  CHECK((ta > tb) == (a > b));
  CHECK((ta <= tb) == (a <= b));
  CHECK((ta >= tb) == (a >= b));
}

// Every assignment of two (and NaN) values to every field, against every other.
void Inputs(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const float v[] = {.25f, .5f, kNaN};
  const ET types[] = {ET::kDown, ET::kMove, ET::kUp};
  Input a, b;
  bool same = true;
  auto field = [&](auto set) {
    int x = pick(2), y = pick(3);
    set(a, x);
    set(b, y);
    if (x != y) same = false;
  };
  field([&](Input& in, int k) { in.event_type = types[k]; });
  field([&](Input& in, int k) { in.position.x = v[k]; });
  field([&](Input& in, int k) { in.position.y = v[k]; });
  field([&](Input& in, int k) { in.time = Time(v[k]); });
  field([&](Input& in, int k) { in.pressure = v[k]; });
  field([&](Input& in, int k) { in.tilt = v[k]; });
  field([&](Input& in, int k) { in.orientation = v[k]; });
  std::string w = Str(a) + " and " + Str(b);
  const char* what = w.c_str();
  ctx.State(Mix(3, i));
  ctx.c.transitions++;
  if (same) ctx.c.nontrivial++;
  CHECK((a == b) == same);
  CHECK((a != b) == !same);
  CHECK((b == a) == same);
}
void ResultsEq(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const float v[] = {.25f, .5f, kNaN};
  Result a, b;
  bool same = true;
  int nan_at = pick(11);
  int k = 0;
  auto field = [&](auto set) {
    int x = pick(2), y = pick(2);
    if (nan_at == k) x = y = 2;
    ++k;
    set(a, v[x]);
    set(b, v[y]);
    if (!(v[x] == v[y])) same = false;
  };
  field([&](Result& r, float f) { r.position.x = f; });
  field([&](Result& r, float f) { r.position.y = f; });
  field([&](Result& r, float f) { r.velocity.x = f; });
  field([&](Result& r, float f) { r.velocity.y = f; });
  field([&](Result& r, float f) { r.acceleration.x = f; });
  field([&](Result& r, float f) { r.acceleration.y = f; });
  field([&](Result& r, float f) { r.time = Time(f); });
  field([&](Result& r, float f) { r.pressure = f; });
  field([&](Result& r, float f) { r.tilt = f; });
  field([&](Result& r, float f) { r.orientation = f; });
  ctx.c.transitions++;
  if (same) ctx.c.nontrivial++;
  if ((a == b) == same && (a != b) == !same && (b == a) == same) return;
  ctx.Fail("%s and %s: == gives %d, != gives %d", Str(a).c_str(), Str(b).c_str(), a == b, a != b);
}

// Two fields over many values, the others equal.
const float kEq[] = {0, -0.f, 1, -1, -2, .1f, .10000001f, 1e-45f, -1e-45f, 1e38f, kInf, -kInf, kNaN, 6.2831855f};
constexpr int kNEq = 14;
template <typename T, typename Set>
void EqPairs(Pick& pick, Ctx& ctx, int fields, Set set) {
  float base = pick(2) ? -1 : .25f;
  int f = pick(fields), g = pick(fields);
  float af = kEq[pick(kNEq)], ag = kEq[pick(kNEq)], bf = kEq[pick(kNEq)], bg = kEq[pick(kNEq)];
  if (f > g || (f == g && (af != 0 || std::signbit(af) || bf != 0 || std::signbit(bf)))) return;
  T a, b;
  for (int k = 0; k < fields; ++k) {
    set(a, k, base);
    set(b, k, base);
  }
  set(a, f, af);
  set(b, f, bf);
  set(a, g, ag);
  set(b, g, bg);
  bool same = (f == g || af == bf) && ag == bg;
  ctx.c.transitions++;
  ctx.c.compared += 3;
  if (same) ctx.c.nontrivial++;
  if ((a == b) == same && (a != b) == !same && (b == a) == same) return;
  ctx.Fail("%s and %s: == gives %d, != gives %d", Str(a).c_str(), Str(b).c_str(), a == b, a != b);
}
void InputPairs(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  ET type = pick(2) ? ET::kMove : ET::kUp;
  EqPairs<Input>(pick, ctx, 6, [&](Input& in, int k, float v) {
    in.event_type = type;
    switch (k) {
      case 0: in.position.x = v; break;
      case 1: in.position.y = v; break;
      case 2: in.time = Time(v); break;
      case 3: in.pressure = v; break;
      case 4: in.tilt = v; break;
      case 5: in.orientation = v; break;
    }
  });
}
void ResultPairs(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  EqPairs<Result>(pick, ctx, 10, [](Result& r, int k, float v) {
    switch (k) {
      case 0: r.position.x = v; break;
      case 1: r.position.y = v; break;
      case 2: r.velocity.x = v; break;
      case 3: r.velocity.y = v; break;
      case 4: r.acceleration.x = v; break;
      case 5: r.acceleration.y = v; break;
      case 6: r.time = Time(v); break;
      case 7: r.pressure = v; break;
      case 8: r.tilt = v; break;
      case 9: r.orientation = v; break;
    }
  });
}

// Angles between vectors of given directions and lengths.
void Angles(uint64_t i, Ctx& ctx, int dirs) {
  Pick pick(i);
  const double lens[] = {1, 1e-6, 1e12, 3.7, 1e-15, 1e30};
  auto vec = [&] {
    int d = pick(dirs);
    double a = 2 * kPiD * d / dirs, l = lens[pick(6)];
    // exact on the axes
    double c = d * 4 % dirs == 0 && (d * 4 / dirs) % 2 ? 0 : std::cos(a), s = d * 2 % dirs == 0 ? 0 : std::sin(a);
    return Vec2{(float)(l * c), (float)(l * s)};
  };
  Vec2 a = vec(), b = vec();
  ctx.State(Mix(4, i));
  ctx.c.transitions++;
  ctx.c.nontrivial++;
  auto r = a.AbsoluteAngleTo(b), q = b.AbsoluteAngleTo(a);
  double want = std::fabs(std::atan2((double)a.x * b.y - (double)a.y * b.x, (double)a.x * b.x + (double)a.y * b.y));
  ctx.c.compared++;
  bool ok = r.ok() && q.ok() && *r >= 0 && *r <= (float)kPiD;
  // The cosine is rounded, which matters next to 0 and pi.
  if (ok) ok = std::fabs(std::cos(*r) - std::cos(want)) <= 1e-6 && std::fabs(*r - want) <= 1.5e-3 && std::fabs(*q - *r) <= 1.5e-3 &&
               std::fabs(std::cos(*q) - std::cos(want)) <= 1e-6;
  if (!ok)
    ctx.Fail("the angle between (%.9g,%.9g) and (%.9g,%.9g) is %.9g (%.9g the other way), expected %.9g", a.x, a.y, b.x, b.y, r.ok() ? *r : -1,
             q.ok() ? *q : -1, want);
}

// The numbers in a text, in order.
std::vector<double> Numbers(const std::string& s) {
  std::vector<double> v;
  const char* p = s.c_str();
  while (*p) {
    bool start = (*p >= '0' && *p <= '9') || *p == '-' || *p == '+' || *p == '.' || !strncasecmp(p, "nan", 3) || !strncasecmp(p, "inf", 3);
    if (start) {
      char* end;
      double d = strtod(p, &end);
      if (end != p) {
        v.push_back(d);
        p = end;
        continue;
      }
    }
    if ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z')) {  // a word
      while ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z')) ++p;
      continue;
    }
    ++p;
  }
  return v;
}
bool Shows(const std::string& text, const std::vector<double>& want) {
  std::vector<double> have = Numbers(text);
  if (have.size() != want.size()) return false;
  for (size_t i = 0; i < have.size(); ++i) {
    if (SameF(have[i], want[i])) continue;
    if (!(std::fabs(have[i] - want[i]) <= 1e-5 * std::fabs(want[i]))) return false;
  }
  return true;
}
struct Sink {
  std::string s;
  template <typename S>
  void Append(const S& t) { s += std::string(t); }
};
template <typename T>
void Format(const T& x, const std::vector<double>& want, const std::string& start, Ctx& ctx) {
  std::string f = ToFormattedString(x);
  std::ostringstream o;
  o << x;
  Sink sink;
  AbslStringify(sink, x);
  ctx.c.compared++;
  ctx.Log("%s", f.c_str());
  ctx.State(std::hash<std::string>()(f));
  if (o.str() != f) return ctx.Fail("<< gives %s, ToFormattedString %s", o.str().c_str(), f.c_str());
  if (sink.s != f) return ctx.Fail("AbslStringify gives %s, ToFormattedString %s", sink.s.c_str(), f.c_str());
  if (!Shows(f, want) || f.find(start) == std::string::npos) {
    std::string w;
    for (double d : want) w += std::to_string(d) + " ";
    return ctx.Fail("'%s' does not show %s%s in order", f.c_str(), start.c_str(), w.c_str());
  }
}
// Every field in turn takes every value, the others are distinct.
void Formats(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  const float vals[] = {0, -1, .5f, 1e-7f, 123456, 1.5e20f, kInf, -kInf, kNaN, 3.14159265f, -2.75f, 99999.5f};
  int at = pick(10), val = pick(12), type = pick(3);
  float f[10];
  for (int k = 0; k < 10; ++k) f[k] = 2.125f + k * 3;
  f[at] = vals[val];
  ctx.c.transitions++;
  ctx.c.nontrivial++;
  const ET types[] = {ET::kDown, ET::kMove, ET::kUp};
  const char* names[] = {"Down", "Move", "Up"};
  Input in = In(types[type], f[0], f[1], f[2], f[3], f[4], f[5]);
  Format(in, {f[0], f[1], f[2], f[3], f[4], f[5]}, names[type], ctx);
  Format(types[type], {}, names[type], ctx);
  Result r;
  r.position = {f[0], f[1]};
  r.velocity = {f[2], f[3]};
  r.acceleration = {f[4], f[5]};
  r.time = Time(f[6]);
  r.pressure = f[7];
  r.tilt = f[8];
  r.orientation = f[9];
  Format(r, {f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9]}, "", ctx);
  Format(Vec2{f[0], f[1]}, {f[0], f[1]}, "", ctx);
  Format(Time(f[at]), {f[at]}, "", ctx);
  Format(Duration(f[at]), {f[at]}, "", ctx);
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a tuple of values decoded from its index; non-trivial: all, or for the equalities the pairs that are equal");
  AddAssumption("angles: vectors whose length neither overflows nor is denormal; within rounding of the cosine to a float");
  std::vector<Space> v;
  v.push_back({"vectors", "all pairs of vectors and a scalar over 12 floats (zeros, ordinary, largest, denormal, infinite, NaN)", Pow(kNF, 5), Vectors});
  v.push_back({"times", "all triples over 15 doubles; Duration and Time", Pow(kND, 3), Times});
  v.push_back({"inputs", "all assignments of 2 values to the 7 fields of an Input, against all of 3 values (two equal ones, NaN)", Pow(6, 7), Inputs});
  v.push_back({"results", "all pairs of assignments of 2 values to the 10 fields of a Result, with no field or any one field NaN", 11 * Pow(4, 10), ResultsEq});
  v.push_back({"input-values", "any two fields of two Inputs over 14 values (zeros, negative, adjacent, denormal, infinite, NaN), the others equal", 2 * 2 * 36 * Pow(kNEq, 4), InputPairs});
  v.push_back({"result-values", "the same for Results", 2 * 100 * Pow(kNEq, 4), ResultPairs});
  int dirs = thorough ? 720 : 96;
  v.push_back({"angles", "all pairs of " + std::to_string(dirs) + " directions and 6 lengths", (uint64_t)dirs * dirs * 36, [=](uint64_t i, Ctx& c) { Angles(i, c, dirs); }});
  v.push_back({"formats", "every field at every one of 12 values, other fields distinct; all event types", 10 * 12 * 3, Formats});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C18", Make); }
