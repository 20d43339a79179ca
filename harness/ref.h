// An executable model of the documented stroke model, and its conformance check.
//
// RefModeler<T> is written from the README and the comments of the headers. It
// is run twice, side by side: with T = float, and with T = double. The distance
// between the two runs measures how much rounding can matter at each point, and
// is what the implementation is allowed to deviate by (times a small factor,
// plus a few units in the last place of the quantities involved).
//
// Everything that is a choice rather than a value (a window drops a sample, a
// sample count is rounded up, a step overshoots, a segment is the closest one)
// goes through Decisions. The float run leads and the double run follows its
// choices; a choice that the two would make differently, or that is within
// rounding of its threshold (but not exactly on it in both), is marked as
// ambiguous. Where the implementation disagrees with the model after an
// ambiguous choice, nothing is concluded and the rest of the stroke is given up
// (and counted); everywhere else a disagreement is a violation.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_

#include <array>
#include <deque>
#include <optional>
#include <variant>

#include "common.h"

namespace vx {

template <typename T>
struct V {
  T x = 0, y = 0;
};
template <typename T> V<T> operator+(V<T> a, V<T> b) { return {a.x + b.x, a.y + b.y}; }
template <typename T> V<T> operator-(V<T> a, V<T> b) { return {a.x - b.x, a.y - b.y}; }
template <typename T> V<T> operator*(T s, V<T> a) { return {s * a.x, s * a.y}; }
template <typename T> V<T> operator/(V<T> a, T s) { return {a.x / s, a.y / s}; }
template <typename T> T Dot(V<T> a, V<T> b) { return a.x * b.x + a.y * b.y; }
template <typename T> T Cross(V<T> a, V<T> b) { return a.x * b.y - a.y * b.x; }
template <typename T> T Mag(V<T> a) { return std::hypot(a.x, a.y); }
template <typename T> T Dist(V<T> a, V<T> b) { return Mag<T>(b - a); }
template <typename T> T C01(T v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
template <typename T> T Lerp(T a, T b, T r) { return a + (b - a) * C01<T>(r); }
template <typename T> V<T> LerpV(V<T> a, V<T> b, T r) { return a + C01<T>(r) * (b - a); }
template <typename T> V<T> Conv(Vec2 v) { return {(T)v.x, (T)v.y}; }

template <typename T>
struct RTip {
  V<T> p, v, a;
  double t = 0;
};
template <typename T>
struct RRes {
  V<T> p, v, a;
  double t = 0;
  T pr = -1, ti = -1, orr = -1;
};

class Decisions {
 public:
  void Lead() { lead_ = true; log_.clear(); pos_ = 0; fuzzy = tie = false; }
  void Follow() { lead_ = false; pos_ = 0; }
  bool fuzzy = false;   // an ambiguous choice in this call
  bool sticky = false;  // an ambiguous choice whose effect stays
  bool tie = false;     // a choice exactly on its threshold in this call
  int count = 0;

  // margin: distance from the threshold. eps: how far rounding can move it.
  // sig: what the choice depends on; a choice exactly on its threshold counts as
  // certain only if this is exactly the same in both runs, i.e. not rounded.
  bool Take(bool mine, double margin, double eps, bool stays = false, double sig = 0) {
    return TakeInt(mine, margin, eps, stays, sig) != 0;
  }
  int TakeInt(int mine, double margin, double eps, bool stays = false, double sig = 0) {
    margin = std::fabs(margin);
    bool amb = margin > 0 && margin <= eps;
    if (margin == 0) tie = true;
    int r;
    if (lead_) {
      log_.push_back({mine, margin == 0, sig});
      ++count;
      r = mine;
    } else {
      auto& e = log_[pos_++];
      r = e.value;
      if (r != mine || e.exact != (margin == 0)) amb = amb || r != mine || margin <= eps;
      if (margin == 0 && e.exact && e.sig != sig) amb = true;
    }
    if (amb) (stays ? sticky : fuzzy) = true;
    return r;
  }
  void Ambiguous() { fuzzy = true; }

 private:
  struct E {
    int value;
    bool exact;
    double sig;
  };
  std::vector<E> log_;
  size_t pos_ = 0;
  bool lead_ = true;
};

// Rounds up; ambiguous close to (not exactly at) an integer.
inline int CeilDecision(Decisions& d, double x, double rel, bool stays = false) {
  if (!(x < 2e9)) return d.TakeInt(2147483647, 1e9, 0);
  double n = std::ceil(x);
  double m = std::fabs(x - std::round(x));
  return d.TakeInt((int)n, m, rel * std::max(1., std::fabs(x)), stays, x);
}

template <typename T>
class RefModeler {
 public:
  RefModeler(const StrokeModelParams& p, Decisions& d) : P(p), D(d) {
    if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) K = *k;
  }

  struct Out {
    bool ok = true;
    std::vector<RRes<T>> r;
    // how each result came about, for alternatives
    std::vector<RTip<T>> tip;
    std::vector<std::optional<V<T>>> normal;
    std::vector<T> strength;
    std::vector<bool> qfuzzy;  // the projection is ambiguous
    std::vector<bool> qtie;    // the projection is on a threshold exactly
    std::vector<std::array<T, 6>> slack;  // how far rounding moves its values
    std::vector<double> prev;
  };

  double pos_scale = 0;  // largest coordinate so far
  V<T> corrected;        // smoothed position of the latest input
  int n_steps = 0;       // of the latest Move or Up
  int n_eos = 0;         // catch-up samples of the latest Up or prediction
  int n_conn = 0;        // connector samples of the latest prediction
  T strength_now = 1;
  // Whether the implementation's tip is known to be at rest exactly when this
  // one is (rather than up to rounding).
  bool trust_zero = true;

  Out Update(const Input& in) {
    Out o;
    if (in.event_type == ET::kDown) pos_scale = 0;
    pos_scale = std::max({pos_scale, (double)std::fabs(in.position.x), (double)std::fabs(in.position.y)});
    V<T> raw = Conv<T>(in.position);
    double t = in.time.Value();
    if (in.event_type == ET::kDown) {
      wob_.clear();
      wob_.push_back({raw, {}, 0, 0, t});
      wsum_ = {};
      wdist_ = wdur_ = 0;
      tip_ = {raw, {}, {}, t};
      sty_.clear();
      unk_[0] = unk_[1] = unk_[2] = false;
      speeds_.clear();
      strength_now = 1;
      snoise_ = 0;
      max_gap_ = 1 / P.sampling_params.min_output_rate;
      StylusUpdate(raw, in);
      if (K) KalmanReset();
      PredictorUpdate(raw, t);
      last_ = in;
      corrected = last_corr_ = raw;
      RRes<T> r{raw, {}, {}, t, (T)in.pressure, (T)in.tilt, (T)in.orientation};
      o.r.push_back(r);
      o.tip.push_back(tip_);
      o.normal.push_back(std::nullopt);
      o.strength.push_back(1);
      o.qfuzzy.push_back(false);
      o.qtie.push_back(false);
      o.slack.push_back({0, 0, 0, 0, 0, 0});
      o.prev.push_back(t);
      return o;
    }
    int n = Steps(in);
    n_steps = n;
    if (n > P.sampling_params.max_outputs_per_call) {
      o.ok = false;
      return o;
    }
    bool up = in.event_type == ET::kUp;
    V<T> corr = up ? raw : Wobble(raw, t);
    corrected = corr;
    if (!up) StylusUpdate(corr, in);
    std::vector<RTip<T>> tips;
    for (int i = 1; i <= n; ++i) {
      T r = (T)i / n;
      double tt = last_.time.Value() + (t - last_.time.Value()) * (double)r;
      Spring(LerpV<T>(last_corr_, corr, r), tt);
      tips.push_back(tip_);
    }
    if (up) {
      size_t before = tips.size();
      CatchUp(raw, tip_, std::min(P.sampling_params.end_of_stroke_max_iterations,
                                  P.sampling_params.max_outputs_per_call - n), tips);
      n_eos = (int)(tips.size() - before);
    }
    if (tips.empty()) tips.push_back(tip_);
    if (up) StylusUpdate(raw, in);
    max_gap_ = std::max(max_gap_, t - last_.time.Value());
    double prev = up ? last_.time.Value() : t;
    if (!up) PredictorUpdate(corr, t);
    last_ = in;
    last_corr_ = corr;
    Stylus(tips, speeds_, prev, o);
    return o;
  }

  Out Predict() {
    Out o;
    std::vector<RTip<T>> tips;
    if (K)
      KalmanPredict(tips);
    else {
      RTip<T> s = tip_;
      CatchUp(pred_pos_, s, std::min(P.sampling_params.end_of_stroke_max_iterations,
                                     P.sampling_params.max_outputs_per_call), tips);
      n_eos = (int)tips.size();
    }
    auto copy = speeds_;
    T keep = strength_now;
    Stylus(tips, copy, last_.time.Value(), o);
    for (size_t k = 0; K && k < noise_.size() && k < o.slack.size(); ++k)
      for (int j = 0; j < 3; ++j) o.slack[k][3 + j] += noise_[k][j];
    strength_now = keep;
    return o;
  }

  // Every result that an ambiguous projection could give for result k of o.
  struct Alt {
    RRes<T> r;
    bool plausible;
  };
  std::vector<Alt> Alternatives(const Out& o, size_t k) {
    std::vector<Alt> v;
    const RTip<T>& s = o.tip[k];
    auto add = [&](RRes<T> pr, bool plausible) {
      Strip(pr, s.t);
      v.push_back({Blend(pr, s, o.strength[k]), plausible});
    };
    const bool normal = P.stylus_state_modeler_params.use_stroke_normal_projection;
    double h = 1 / P.sampling_params.min_output_rate;
    double anoise = 2e-6 * (pos_scale / P.position_modeler_params.spring_mass_constant + Mag<T>(s.a));
    double vnoise = anoise * h + 2e-6 * Mag<T>(s.v);
    const bool at_rest = Mag<T>(s.v) <= vnoise && Mag<T>(s.a) <= anoise;
    std::vector<double> dist;
    double best = 1e300;
    std::vector<T> par;
    for (size_t i = 0; i + 1 < sty_.size(); ++i) {
      V<T> a = sty_[i].p, b = sty_[i + 1].p;
      T len = Dot<T>(b - a, b - a);
      par.push_back(len == 0 ? 0 : C01<T>(Dot<T>(s.p - a, b - a) / len));
      dist.push_back(Dist<T>(s.p, LerpV<T>(a, b, par.back())));
      best = std::min(best, dist.back());
    }
    for (size_t i = 0; i + 1 < sty_.size(); ++i) {
      V<T> a = sty_[i].p, b = sty_[i + 1].p;
      if (normal) {
        T dt = (T)(s.t - o.prev[k]);
        V<T> nv = s.v + dt * s.a;
        V<T> avg = s.v / Mag<T>(s.v) + nv / Mag<T>(nv);
        for (V<T> dir : {s.v, s.a, avg}) {
          V<T> n{-dir.y, dir.x};
          T det = Cross<T>(n, b - a);
          T par = det != 0 ? Cross<T>(a - s.p, n) / det : 0;
          if (!std::isfinite(par)) par = 0;
          double e = 1e-3 + 1e-5 * pos_scale * Mag<T>(n) / std::max<double>(std::fabs(det), 1e-30);
          bool ok = par > -e && par < 1 + e;
          add(Mid(sty_[i], sty_[i + 1], C01<T>(par), false), ok);
          add(Mid(sty_[i], sty_[i + 1], C01<T>(par), true), ok);
          // a ray (almost) along the segment may meet it at either end
          bool along = std::fabs(det) <= 1e-5 * Mag<T>(n) * std::max<double>(pos_scale, Dist<T>(a, b));
          add(sty_[i], along);
          add(sty_[i + 1], along);
        }
      }
      bool ok = (!normal || at_rest) && dist[i] <= best + 1e-5 * pos_scale;
      add(Mid(sty_[i], sty_[i + 1], par[i], false), ok);
      add(Mid(sty_[i], sty_[i + 1], par[i], true), ok);
    }
    if (!sty_.empty()) {
      bool ends = normal || sty_.size() == 1;
      add(sty_.front(), ends);
      add(sty_.back(), ends);
    }
    return v;
  }
  const std::deque<RRes<T>>& Window() const { return sty_; }
  const RTip<T>& Tip() const { return tip_; }
  // The filter's estimate and the four confidence factors of the latest
  // prediction (Kalman strategy).
  struct Est {
    bool valid = false;
    V<T> p, v, a, j;
    T factor[4] = {0, 0, 0, 0};
    T target = 0;
  } est;

 private:
  struct WS {
    V<T> p, w;
    T dist;
    double dur, t;
  };
  // -------------------------------------------------------------- smoothing
  V<T> Wobble(V<T> pos, double t) {
    const auto& w = P.wobble_smoother_params;
    if (!w.is_enabled) return pos;
    double dur = t - wob_.back().t;
    WS s{pos, (T)dur * pos, Dist<T>(pos, wob_.back().p), dur, t};
    wob_.push_back(s);
    wsum_ = wsum_ + s.w;
    wdist_ += s.dist;
    wdur_ = (T)(wdur_ + dur);
    for (;;) {
      double m = wob_.front().t - (t - w.timeout.Value());
      double m2 = w.timeout.Value() - (t - wob_.front().t);
      bool exact = m == 0 && m2 == 0;
      if (!D.Take(m < 0, exact ? 0 : std::max(std::fabs(m), 1e-300), exact ? 0 : 1e-11 * (w.timeout.Value() + std::fabs(t)), true)) break;
      wsum_ = wsum_ - wob_.front().w;
      wdist_ -= wob_.front().dist;
      wdur_ = (T)(wdur_ - wob_.front().dur);
      wob_.pop_front();
    }
    V<T> ws = wsum_;
    T dist = wdist_, dursum = wdur_;
    if (sizeof(T) == sizeof(double)) {  // no accumulated rounding
      ws = {};
      dist = dursum = 0;
      for (auto& e : wob_) {
        ws = ws + e.w;
        dist += e.dist;
        dursum += (T)e.dur;
      }
    }
    if (D.Take(dursum == 0, dursum, 1e-11 * w.timeout.Value())) return pos;
    V<T> avg = ws / dursum;
    T speed = dist / dursum;
    T lo = w.speed_floor, hi = w.speed_ceiling, r;
    if (lo == hi)
      r = D.Take(speed > lo, (double)speed - lo, 1e-5 * std::max<double>(speed, lo), false, speed + 3. * avg.x + 5. * avg.y) ? 1 : 0;
    else
      r = C01<T>((speed - lo) / (hi - lo));
    return LerpV<T>(avg, pos, r);
  }

  // ---------------------------------------------------------------- sampling
  int Steps(const Input& in) {
    double dt = in.time.Value() - last_.time.Value();
    T fdt = (T)dt;
    const auto& s = P.sampling_params;
    double x = (double)fdt * s.min_output_rate;
    int n = CeilDecision(D, x, 3e-7);
    if (s.max_estimated_angle_to_traverse_per_input > 0) {
      V<T> k{(T)P.position_modeler_params.spring_mass_constant, 0};
      V<T> dv = fdt * ((Conv<T>(in.position) - tip_.p) / k.x);
      V<T> ev = tip_.v + dv;
      T m1 = Mag<T>(tip_.v), m2 = Mag<T>(ev);
      T ang = 0;
      bool still = m1 == 0 || m2 == 0;
      if (m1 == 0 && !trust_zero && std::ceil(kPiD / s.max_estimated_angle_to_traverse_per_input) > n) D.Ambiguous();
      if (!D.Take(m1 == 0 || m2 == 0, std::min<double>(m1, m2), 1e-12 * pos_scale * s.min_output_rate)) {
        T dot = Dot<T>(tip_.v / m1, ev / m2);
        dot = dot > 1 ? 1 : dot < -1 ? -1 : dot;
        ang = std::acos(dot);
      }
      // rounding of the positions, seen as velocity
      double noise = m1 == 0 || m2 == 0 ? 0 : 1e-6 * pos_scale * (double)fdt / k.x * (1 / (double)m1 + 1 / (double)m2);
      double q = ang / s.max_estimated_angle_to_traverse_per_input;
      // acos amplifies rounding next to 0 and pi
      double err = noise + 2e-6 + (ang < .02 || ang > kPiD - .02 ? 1.5e-3 : 1e-5);
      double mm = std::fabs(q - std::round(q));
      double qe = err / s.max_estimated_angle_to_traverse_per_input;
      if (std::max<double>(n, std::ceil(q - qe)) == std::max<double>(n, std::ceil(q + qe))) mm = 1e9;
      int na = D.TakeInt((int)std::ceil(q), still ? 0 : std::max(mm, 1e-300), still ? 0 : err / s.max_estimated_angle_to_traverse_per_input);
      n = std::max(n, na);
    }
    return n;
  }
  static double Sig(const RTip<T>& s) {
    return s.p.x + 3. * s.p.y + 5. * s.v.x + 7. * s.v.y + 11. * s.a.x + 13. * s.a.y;
  }
  void Spring(V<T> anchor, double t) { Spring(anchor, t, tip_); }
  void Spring(V<T> anchor, double t, RTip<T>& s) {
    T dt = (T)(t - s.t);
    s.a = (anchor - s.p) / (T)P.position_modeler_params.spring_mass_constant -
          (T)P.position_modeler_params.drag_constant * s.v;
    s.v = s.v + dt * s.a;
    s.p = s.p + dt * s.v;
    s.t = t;
    pos_scale = std::max({pos_scale, (double)std::fabs(s.p.x), (double)std::fabs(s.p.y)});
  }
  void CatchUp(V<T> anchor, RTip<T>& s, int iterations, std::vector<RTip<T>>& out) {
    double dt = 1 / P.sampling_params.min_output_rate;
    double stop = P.sampling_params.end_of_stroke_stopping_distance;
    for (int i = 0; i < iterations; ++i) {
      RTip<T> c = s;
      Spring(anchor, s.t + dt, c);
      T moved = Dist<T>(s.p, c.p);
      double eps = 2e-6 * pos_scale + 1e-5 * moved;
      if (D.Take(moved < (T)stop, moved - stop, eps, false, Sig(c))) { s = c; return; }
      V<T> seg = c.p - s.p;
      T len = Dot<T>(seg, seg);
      T ratio = len == 0 ? 0 : Dot<T>(anchor - s.p, seg) / len;
      double reps = 1e-5 + 4e-6 * (double)pos_scale / std::max<double>(moved, 1e-30);
      if (D.Take(ratio < 1, (double)ratio - 1, reps, false, Sig(c))) {
        dt /= 2;
        continue;
      }
      s = c;
      out.push_back(c);
      T left = Dist<T>(c.p, anchor);
      if (D.Take(left < (T)stop, left - stop, 2e-6 * pos_scale + 1e-5 * left, false, Sig(c))) return;
    }
  }

  // ------------------------------------------------------------------ stylus
  void StylusUpdate(V<T> pos, const Input& in) {
    float v[3] = {in.pressure, in.tilt, in.orientation};
    for (int i = 0; i < 3; ++i)
      if (!(v[i] >= 0)) unk_[i] = true;
    const auto& q = P.stylus_state_modeler_params;
    if (!q.use_stroke_normal_projection && unk_[0] && unk_[1] && unk_[2]) {
      sty_.clear();
      return;
    }
    RRes<T> r;
    r.p = pos;
    r.t = in.time.Value();
    r.pr = in.pressure;
    r.ti = in.tilt;
    r.orr = in.orientation;
    if (!sty_.empty() && r.t != sty_.back().t) {
      T dt = (T)(r.t - sty_.back().t);
      r.v = (pos - sty_.back().p) / dt;
      r.a = (r.v - sty_.back().v) / dt;
    }
    sty_.push_back(r);
    for (;;) {
      if (q.use_stroke_normal_projection) {
        if ((int)sty_.size() <= q.min_input_samples) break;
        double m = (sty_.back().t - sty_[1].t) - q.min_sample_duration.Value();
        double m2 = sty_.back().t - q.min_sample_duration.Value() - sty_[1].t;
        bool exact = m == 0 && m2 == 0;
        if (!D.Take(m > 0, exact ? 0 : std::max(std::fabs(m), 1e-300), exact ? 0 : 1e-11 * (q.min_sample_duration.Value() + std::fabs(r.t)), true)) break;
      } else if ((int)sty_.size() <= q.max_input_samples) {
        break;
      }
      sty_.pop_front();
    }
  }
  void Strip(RRes<T>& r, double t) {
    r.t = t;
    if (unk_[0]) r.pr = -1;
    if (unk_[1]) r.ti = -1;
    if (unk_[2]) r.orr = -1;
  }
  T Norm(T a) {
    a = std::fmod(a, (T)(2 * kPiD));
    if (a < 0) a += (T)(2 * kPiD);
    return a;
  }
  T Angle(T a, T b, T r, bool flip) {
    a = Norm(a);
    b = Norm(b);
    T d = b - a;
    bool less = d < (T)-kPiD, more = d > (T)kPiD;
    if (flip && std::fabs(std::fabs(d) - kPiD) < 1e-4) {
      if (less || more) less = more = false;
      else if (d < 0) less = true;
      else more = true;
    }
    if (less) b += (T)(2 * kPiD);
    if (more) b -= (T)(2 * kPiD);
    return Norm(Lerp<T>(a, b, r));
  }
  RRes<T> Mid(const RRes<T>& a, const RRes<T>& b, T r, bool flip) {
    RRes<T> o;
    o.p = LerpV<T>(a.p, b.p, r);
    o.v = LerpV<T>(a.v, b.v, r);
    o.a = LerpV<T>(a.a, b.a, r);
    o.t = a.t;
    o.pr = a.pr < 0 || b.pr < 0 ? -1 : Lerp<T>(a.pr, b.pr, r);
    o.ti = a.ti < 0 || b.ti < 0 ? -1 : Lerp<T>(a.ti, b.ti, r);
    o.orr = a.orr < 0 || b.orr < 0 ? -1 : Angle(a.orr, b.orr, r, flip);
    return o;
  }
  RRes<T> Blend(const RRes<T>& pr, const RTip<T>& tip, T s) {
    RRes<T> o = pr;
    o.p = LerpV<T>(pr.p, tip.p, s);
    o.v = LerpV<T>(pr.v, tip.v, s);
    o.a = LerpV<T>(pr.a, tip.a, s);
    o.t = tip.t;
    if (!(pr.orr < 0)) o.orr = Norm(pr.orr);
    return o;
  }
  std::optional<V<T>> Normal(const RTip<T>& tip, double prev) {
    T v = Mag<T>(tip.v), a = Mag<T>(tip.a);
    auto orth = [](V<T> x) { return V<T>{-x.y, x.x}; };
    double rate = P.sampling_params.min_output_rate;
    bool v0 = D.Take(v == 0, v, 2e-8 * pos_scale * rate), a0 = D.Take(a == 0, a, 4e-10 * pos_scale * rate * rate);
    if (v0 && a0) return std::nullopt;
    if (v0) return orth(tip.a);
    if (a0) return orth(tip.v);
    T cos = std::fabs(Dot<T>(tip.v, tip.a)) / (v * a);
    if (D.Take(cos > (T)0.99996192, cos - 0.99996192, 4e-6)) return orth(tip.v);
    T dt = (T)(tip.t - prev);
    V<T> nv = tip.v + dt * tip.a;
    return orth(tip.v / v + nv / Mag<T>(nv));
  }
  RRes<T> Query(const RTip<T>& tip, std::optional<V<T>> normal) {
    RRes<T> r;
    if (sty_.empty()) return r;
    const auto& q = P.stylus_state_modeler_params;
    double eps = 4e-6 * pos_scale;
    int seg = -1;
    T ratio = 0;
    if (q.use_stroke_normal_projection && normal) {
      V<T> n = *normal;
      T nm = Mag<T>(n);
      // Products cancel exactly only along an axis.
      bool axis = n.x == 0 || n.y == 0;
      auto M = [&](double m) { return m == 0 && !axis ? 1e-300 : m; };
      int left = -1, right = -1;
      T dl = 0, dr = 0, rl = 0, rr = 0, sl = 0, sr = 0;
      // how far rounding can turn the normal
      double h = 1 / P.sampling_params.min_output_rate;
      double vnoise = 1e-6 * (pos_scale * h / P.position_modeler_params.spring_mass_constant + Mag<T>(tip.v));
      double tilt = 1e-6 + vnoise / std::max<double>(Mag<T>(tip.v), 1e-30) / std::min<double>(1, nm);
      for (size_t i = 0; i + 1 < sty_.size(); ++i) {
        V<T> a = sty_[i].p, b = sty_[i + 1].p;
        T det = Cross<T>(n, b - a);
        T len = Mag<T>(b - a);
        if (D.Take(det == 0, a.x == b.x && a.y == b.y ? 0 : M(det), 3e-6 * nm * std::max<double>(len, pos_scale), false, Sig(tip))) continue;
        T par = Cross<T>(a - tip.p, n) / det;
        double peps = 1e-5 * (1 + std::fabs(par)) +
                      (8e-6 * pos_scale + tilt * (Dist<T>(tip.p, a) + len)) * nm / std::fabs(det);
        if (D.Take(par < 0, M(par), peps, false, Sig(tip))) continue;
        if (D.Take(par > 1, M(par - 1), peps, false, Sig(tip))) continue;
        V<T> at = LerpV<T>(a, b, par);
        T dist = Dist<T>(tip.p, at);
        if (D.Take(Dot<T>(at - tip.p, n) < 0, M(Dot<T>(at - tip.p, n) / nm), eps, false, Sig(tip))) {
          if (right < 0 || D.Take(dist < dr, M(dist - dr), eps, false, Sig(tip))) { right = i; dr = dist; rr = par; sr = peps; }
        } else {
          if (left < 0 || D.Take(dist < dl, M(dist - dl), eps, false, Sig(tip))) { left = i; dl = dist; rl = par; sl = peps; }
        }
      }
      if (left >= 0 && right >= 0) {
        bool use_right = D.Take(Dot<T>(n, tip.a) > 0, M(Dot<T>(n, tip.a)),
                                3e-6 * nm * (std::max<double>(Mag<T>(tip.a), 3e-4 * pos_scale / h / h)), false, Sig(tip));
        seg = use_right ? right : left;
        ratio = use_right ? rr : rl;
        slack_ = use_right ? sr : sl;
      } else if (right >= 0) {
        seg = right; ratio = rr; slack_ = sr;
      } else if (left >= 0) {
        seg = left; ratio = rl; slack_ = sl;
      }
    } else {
      std::vector<T> dist, par;
      for (size_t i = 0; i + 1 < sty_.size(); ++i) {
        V<T> a = sty_[i].p, b = sty_[i + 1].p;
        T len = Dot<T>(b - a, b - a);
        T p = a.x == b.x && a.y == b.y ? 0 : C01<T>(Dot<T>(tip.p - a, b - a) / len);
        par.push_back(p);
        dist.push_back(Dist<T>(tip.p, LerpV<T>(a, b, p)));
        if (seg < 0 || dist.back() <= dist[seg]) seg = (int)i;
      }
      if (seg >= 0) {
        // Margin: the closest competitor that is not the same distance exactly.
        double m = 1e30;
        for (size_t i = 0; i < dist.size(); ++i)
          if ((int)i != seg && dist[i] != dist[seg]) m = std::min(m, std::fabs((double)dist[i] - dist[seg]));
        for (size_t i = 0; i < dist.size(); ++i)
          if ((int)i != seg && dist[i] == dist[seg]) m = 0;
        seg = D.TakeInt(seg, m, eps, false, Sig(tip));
        ratio = par[seg];
        slack_ = 4e-6 * pos_scale / std::max<double>(Dist<T>(sty_[seg].p, sty_[seg + 1].p), 1e-30);
      }
    }
    if (seg >= 0) {
      T d = Norm(sty_[seg + 1].orr) - Norm(sty_[seg].orr);
      if (!(sty_[seg].orr < 0) && !(sty_[seg + 1].orr < 0))
        D.Take(std::fabs(d) > (T)kPiD, std::fabs(d) - kPiD, 2e-6);
      r = Mid(sty_[seg], sty_[seg + 1], ratio, false);
      if (slack_ > 1) slack_ = 1;
      slack_v_[0] = slack_ * std::fabs(sty_[seg].pr - sty_[seg + 1].pr);
      slack_v_[1] = slack_ * std::fabs(sty_[seg].ti - sty_[seg + 1].ti);
      slack_v_[2] = slack_ * std::min<T>(std::fabs(d), (T)kPiD);
      for (int i = 0; i < 3; ++i)
        if (unk_[i]) slack_v_[i] = 0;
      slack_v_[3] = slack_ * Dist<T>(sty_[seg].p, sty_[seg + 1].p);
      slack_v_[4] = slack_ * Dist<T>(sty_[seg].v, sty_[seg + 1].v);
      slack_v_[5] = slack_ * Dist<T>(sty_[seg].a, sty_[seg + 1].a);
    } else {
      T df = Dist<T>(sty_.front().p, tip.p), db = Dist<T>(sty_.back().p, tip.p);
      r = D.Take(df < db, df - db, eps, false, Sig(tip)) ? sty_.front() : sty_.back();
    }
    Strip(r, tip.t);
    return r;
  }
  struct Speed {
    T s;
    double t;
  };
  T Strength(const std::deque<Speed>& sp) {
    const auto& l = P.position_modeler_params.loop_contraction_mitigation_params;
    if (!l.is_enabled || sp.empty()) return 1;
    T sum = 0;
    for (auto& s : sp) sum += s.s;
    T avg = sum / sp.size();
    T lo = l.speed_lower_bound, hi = l.speed_upper_bound;
    T r = hi - lo == 0 ? 0 : C01<T>((avg - lo) / (hi - lo));
    return Lerp<T>(l.interpolation_strength_at_speed_lower_bound,
                   l.interpolation_strength_at_speed_upper_bound, r);
  }
  void Stylus(const std::vector<RTip<T>>& tips, std::deque<Speed>& sp, double prev, Out& o) {
    const auto& l = P.position_modeler_params.loop_contraction_mitigation_params;
    T s = Strength(sp);
    for (const auto& tip : tips) {
      bool before = D.fuzzy, tie_before = D.tie;
      D.fuzzy = D.tie = false;
      slack_ = 0;
      slack_v_ = {0, 0, 0, 0, 0, 0};
      std::optional<V<T>> n = P.stylus_state_modeler_params.use_stroke_normal_projection
                                  ? Normal(tip, prev) : std::nullopt;
      RRes<T> pr = Query(tip, n);
      // The blend takes on the projection's rounding and that of the strength.
      for (int i = 3; i < 6; ++i) slack_v_[i] *= 1 - s;
      slack_v_[3] += snoise_ * Dist<T>(pr.p, tip.p);
      slack_v_[4] += snoise_ * Dist<T>(pr.v, tip.v);
      slack_v_[5] += snoise_ * Dist<T>(pr.a, tip.a);
      if (l.is_enabled && l.speed_upper_bound > l.speed_lower_bound)
        snoise_ = std::max<T>(snoise_, slack_v_[4] / (l.speed_upper_bound - l.speed_lower_bound) *
                                           (l.interpolation_strength_at_speed_lower_bound - l.interpolation_strength_at_speed_upper_bound));
      if (snoise_ > 1) snoise_ = 1;
      o.qfuzzy.push_back(D.fuzzy);
      o.qtie.push_back(D.tie);
      o.slack.push_back(slack_v_);
      o.prev.push_back(prev);
      D.fuzzy = before;
      D.tie = tie_before;
      o.r.push_back(Blend(pr, tip, s));
      o.tip.push_back(tip);
      o.normal.push_back(n);
      o.strength.push_back(s);
      if (l.is_enabled) {
        sp.push_back({Mag<T>(o.r.back().v), tip.t});
        while (sp.size() > 1) {
          if ((int)sp.size() <= l.min_discrete_speed_samples) break;
          double m = sp.back().t - sp.front().t - l.min_speed_sampling_window.Value();
          if (!D.Take(m > 0, m, 2e-7 * max_gap_ + 1e-8 * l.min_speed_sampling_window.Value() + 1e-15 * std::fabs(tip.t), true)) break;
          sp.pop_front();
        }
      }
      s = Strength(sp);
      prev = tip.t;
    }
    strength_now = s;
  }

  // ------------------------------------------------------------------ Kalman
  struct Axis {
    double x[4] = {0, 0, 0, 0};
    double p[4][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}};
    double gain[4] = {1, 0, 0, 0};
    int n = 0;
    void Observe(double z, double q, double r) {
      if (n++ == 0) {
        x[0] = z;
        return;
      }
      const double F[4][4] = {{1, 1, .5, 1. / 6}, {0, 1, 1, .5}, {0, 0, 1, 1}, {0, 0, 0, 1}};
      const double g[4] = {1. / 6, .5, 1, 1};
      double nx[4], fp[4][4], np[4][4];
      for (int i = 0; i < 4; ++i) {
        nx[i] = 0;
        for (int k = 0; k < 4; ++k) nx[i] += F[i][k] * x[k];
        for (int j = 0; j < 4; ++j) {
          fp[i][j] = 0;
          for (int k = 0; k < 4; ++k) fp[i][j] += F[i][k] * p[k][j];
        }
      }
      for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j) {
          np[i][j] = q * g[i] * g[j];
          for (int k = 0; k < 4; ++k) np[i][j] += fp[i][k] * F[j][k];
        }
      // Only the position is measured.
      double s = np[0][0] + r;
      for (int i = 0; i < 4; ++i) gain[i] = np[i][0] / s;
      for (int i = 0; i < 4; ++i) x[i] = nx[i] + gain[i] * (z - nx[0]);
      // Joseph form, (I - KH) P (I - KH)' + K r K', multiplied out.
      for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
          p[i][j] = np[i][j] - gain[i] * np[0][j] - np[i][0] * gain[j] + gain[i] * s * gain[j];
    }
  };
  // How far the estimate can be off because the (smoothed) positions it was
  // given are: the filter is linear, and resp_ has the effect that each of them
  // has on the state now.
  void Respond(double u) {
    if (ax_.n > 1)
      for (auto& r : resp_) {
        double f[4] = {r[0] + r[1] + r[2] / 2 + r[3] / 6, r[1] + r[2] + r[3] / 2, r[2] + r[3], r[3]};
        for (int i = 0; i < 4; ++i) r[i] = f[i] - ax_.gain[i] * f[0];
      }
    if (u > 0) resp_.push_back({u * ax_.gain[0], u * ax_.gain[1], u * ax_.gain[2], u * ax_.gain[3]});
    if (resp_.size() > 1200) resp_.erase(resp_.begin(), resp_.begin() + 200);  // died away
  }
  void KalmanReset() {
    ax_ = ay_ = Axis();
    resp_.clear();
    times_.clear();
  }
  void PredictorUpdate(V<T> pos, double t) {
    pred_pos_ = pos;
    if (!K) return;
    times_.push_back(t);
    if ((int)times_.size() > K->max_time_samples) times_.pop_front();
    ax_.Observe(pos.x, K->process_noise, K->measurement_noise);
    ay_.Observe(pos.y, K->process_noise, K->measurement_noise);
    Respond(P.wobble_smoother_params.is_enabled && ax_.n > 1 ? 5e-7 * pos_scale : 0);
  }
  struct KS {
    V<T> p, v, a, j;
  };
  KS Cubic(const KS& s, T dt) {
    T d2 = dt * dt, d3 = d2 * dt;
    KS e;
    e.p = s.p + dt * s.v + (d2 * s.a) / (T)2 + (d3 * s.j) / (T)6;
    e.v = s.v + dt * s.a + (d2 * s.j) / (T)2;
    e.a = s.a + dt * s.j;
    e.j = s.j;
    return e;
  }
  T Frac(T lo, T hi, T v) {
    if (lo == hi) return D.Take(v > lo, (double)v - lo, 1e-5 * std::max<double>({std::fabs(v), std::fabs(lo), pos_scale})) ? 1 : 0;
    return C01<T>((v - lo) / (hi - lo));
  }
  void KalmanPredict(std::vector<RTip<T>>& out) {
    est = Est();
    noise_.clear();
    n_conn = 0;
    if (ax_.n < K->min_stable_iteration || times_.empty()) return;
    KS e;
    e.p = {(T)ax_.x[0], (T)ay_.x[0]};
    e.v = {(T)ax_.x[1], (T)ay_.x[1]};
    e.a = {(T)ax_.x[2], (T)ay_.x[2]};
    e.j = {(T)ax_.x[3], (T)ay_.x[3]};
    T dt = (T)(times_.back() - times_.front()) / times_.size();
    if (D.Take(dt == 0, dt, 1e-10 / P.sampling_params.min_output_rate)) return;
    T d2 = dt * dt, d3 = d2 * dt;
    e.v = e.v / dt;
    e.a = (T)K->acceleration_weight * (e.a / d2);
    e.j = (T)K->jerk_weight * (e.j / d3);
    double en[4] = {0, 0, 0, 0};
    for (auto& r : resp_)
      for (int i = 0; i < 4; ++i) en[i] += std::fabs(r[i]);
    en[1] /= dt;
    en[2] *= std::fabs(K->acceleration_weight) / d2;
    en[3] *= std::fabs(K->jerk_weight) / d3;
    auto off = [&](double tau, int k) {  // of the k-th derivative after tau
      double x = 0, c = 1;
      for (int i = k; i < 4; ++i) x += en[i] * c, c *= tau / (i - k + 1);
      return x;
    };
    est.valid = true;
    est.p = e.p; est.v = e.v; est.a = e.a; est.j = e.j;

    double sdt = 1 / P.sampling_params.min_output_rate;
    int maxn = P.sampling_params.max_outputs_per_call;
    T dist = Dist<T>(tip_.p, e.p);
    T speed = std::max({Mag<T>(tip_.v), Mag<T>(e.v), (T)K->min_catchup_velocity});
    double x = (double)(dist / speed) / sdt;
    int n = std::max(1, CeilDecision(D, (double)(T)x, 1e-5 + (8e-6 * pos_scale + en[0] + x * sdt * en[1]) / speed / sdt / std::max(1., x)));
    n = std::min(n, maxn);
    n_conn = n;
    double dur = n * sdt;
    T fd = (T)dur;
    V<T> A = (T)2 * tip_.p - (T)2 * e.p + fd * (tip_.v + e.v);
    V<T> B = (T)-3 * tip_.p + (T)3 * e.p - fd * ((T)2 * tip_.v + e.v);
    V<T> C = fd * tip_.v;
    // Rounding of the coefficients, which are differences.
    double ce = 4e-7 * (pos_scale + std::max(Mag<T>(e.p), Mag<T>(tip_.p)) + fd * (Mag<T>(tip_.v) + Mag<T>(e.v))) + en[0] + fd * en[1];
    for (int i = 1; i <= n; ++i) {
      T u = (T)i / n, u2 = u * u, u3 = u2 * u;
      RTip<T> s;
      s.p = u3 * A + u2 * B + u * C + tip_.p;
      s.v = (u2 * ((T)3 * A) + u * ((T)2 * B) + C) / fd;
      s.a = (u * ((T)6 * A) + (T)2 * B) / (fd * fd);
      s.t = tip_.t + dur * (double)u;
      out.push_back(s);
      noise_.push_back({(T)(2 * ce), (T)(10 * ce / fd), (T)(20 * ce / fd / fd)});
    }
    // Confidence.
    const auto& c = K->confidence_params;
    est.target = (T)(K->prediction_interval.Value() * P.sampling_params.min_output_rate);
    T interval = (T)K->prediction_interval.Value();
    est.factor[0] = std::min((T)1, (T)ax_.n / c.desired_number_of_samples);
    est.factor[1] = 1 - Frac(0, c.max_estimation_distance, Dist<T>(pred_pos_, e.p));
    KS end = Cubic(e, interval);
    est.factor[2] = Frac(c.min_travel_speed, c.max_travel_speed, Dist<T>(e.p, end.p) / interval);
    est.factor[3] = Lerp<T>(c.baseline_linearity_confidence, 1,
                            1 - Frac(0, c.max_linear_deviation, Dist<T>(end.p, e.p + interval * e.v)));
    T conf = est.factor[0] * est.factor[1] * est.factor[2] * est.factor[3];
    T want = est.target * conf;
    double rel = 3e-6;
    // The factors are differences; each carries the rounding of its operands.
    double efac = en[0] / c.max_estimation_distance +
                  (off(interval, 0) + en[0]) / interval / (c.max_travel_speed - c.min_travel_speed + 1e-30) +
                  (off(interval, 0) + en[0] + interval * en[1]) / c.max_linear_deviation;
    if (conf > 0 && conf < 1) rel = efac * est.target / std::max<double>(1, want) + 4e-6 * (1 + pos_scale / c.max_estimation_distance + pos_scale / interval / (c.max_travel_speed - c.min_travel_speed + 1e-30) + pos_scale / c.max_linear_deviation) * std::max<double>(1, est.target) / std::max<double>(1, want);
    int np = CeilDecision(D, want, rel);
    np = std::min(std::max(np, 0), maxn - n);
    KS cur = e;
    double t = out.back().t;
    for (int i = 0; i < np; ++i) {
      cur = Cubic(cur, (T)sdt);
      t += sdt;
      out.push_back({cur.p, cur.v, cur.a, t});
      double k = 2e-7 * (i + 1);
      double tau = (i + 1) * sdt;
      noise_.push_back({(T)(k * Mag<T>(cur.p) + off(tau, 0)), (T)(k * Mag<T>(cur.v) + off(tau, 1)), (T)(k * Mag<T>(cur.a) + off(tau, 2))});
    }
  }

  const StrokeModelParams P;
  Decisions& D;
  std::optional<KalmanPredictorParams> K;
  std::deque<WS> wob_;
  T slack_ = 0, snoise_ = 0;
  double max_gap_ = 0;
  std::vector<std::array<T, 3>> noise_;  // of the latest Kalman prediction
  std::array<T, 6> slack_v_ = {0, 0, 0, 0, 0, 0};
  V<T> wsum_;
  T wdist_ = 0, wdur_ = 0;
  RTip<T> tip_;
  std::deque<RRes<T>> sty_;
  bool unk_[3] = {false, false, false};
  std::deque<Speed> speeds_;
  Axis ax_, ay_;
  std::vector<std::array<double, 4>> resp_;
  std::deque<double> times_;
  V<T> pred_pos_;
  Input last_;
  V<T> last_corr_;
};

// -------------------------------------------------------------- conformance

enum Fields { kPosition = 1, kVelocity = 2, kAcceleration = 4, kTime = 8, kStylus = 16, kMotion = 7, kAll = 31 };

class Conform {
 public:
  Conform(const StrokeModelParams& p, Ctx& ctx, int fields)
      : p_(p), ctx_(ctx), fields_(fields) {
    Reset(&p);
  }
  // The other calls: Reset with and without parameters, Save, Restore, and an
  // Update that is to be rejected and to leave everything as it was.
  bool Reset(const StrokeModelParams* p) {
    ctx_.Log(p ? "Reset(parameters)" : "Reset()");
    if (p) p_ = *p;
    absl::Status s = p ? m_.Reset(*p) : m_.Reset();
    if (!s.ok()) ctx_.Fail("valid parameters rejected: %s", Str(s).c_str());
    d_.sticky = false;
    f_.emplace(p_, d_);
    dd_.emplace(p_, d_);
    Fresh();
    saved_.reset();
    last_t_ = 1e300;
    return ok();
  }
  bool Save() {
    ctx_.Log("Save");
    m_.Save();
    saved_.emplace(Saved{*f_, *dd_, d_.sticky, {}, {}, step_, last_t_, last_in_, last_v_, out_was_down_});
    memcpy(saved_->diff, diff_, sizeof diff_);
    memcpy(saved_->abs, abs_, sizeof abs_);
    return ok();
  }
  bool Restore() {
    ctx_.Log("Restore");
    m_.Restore();
    if (!saved_) return ok();
    f_.emplace(saved_->f);
    dd_.emplace(saved_->d);
    d_.sticky = saved_->sticky;
    memcpy(diff_, saved_->diff, sizeof diff_);
    memcpy(abs_, saved_->abs, sizeof abs_);
    step_ = saved_->step;
    last_t_ = saved_->last_t;
    last_in_ = saved_->last_in;
    last_v_ = saved_->last_v;
    out_was_down_ = saved_->was_down;
    return ok();
  }
  bool Rejected(const Input& in) {
    if (!ok()) return false;
    ctx_.Log("Update %s, to be rejected", Str(in).c_str());
    ctx_.c.transitions++;
    Results r;
    if (m_.Update(in, r).ok()) given_up_ = true;  // not this property's business
    return ok();
  }
  bool ok() const { return !ctx_.failed && !given_up_; }
  bool given_up() const { return given_up_; }
  RefModeler<float>& ref() { return *f_; }
  RefModeler<double>& refd() { return *dd_; }
  const Results& out() const { return out_; }
  bool accepted() const { return accepted_; }
  bool ignore_catch_up = false;  // compare the results of an Up only up to its time

  // Returns false when there is nothing more to learn from this stroke.
  bool Update(const Input& in) {
    if (!ok()) return false;
    if (last_t_ < 1e299 && in == last_in_) return true;  // would be a duplicate
    ctx_.Log("Update %s", Str(in).c_str());
    ctx_.c.transitions++;
    bool loop = p_.position_modeler_params.loop_contraction_mitigation_params.is_enabled;
    f_->trust_zero = dd_->trust_zero = out_was_down_ || (!loop && last_v_.x == 0 && last_v_.y == 0);
    out_.clear();
    absl::Status s = m_.Update(in, out_);
    if (s.ok() && !out_.empty()) {
      last_v_ = out_.back().velocity;
      out_was_down_ = in.event_type == ET::kDown;
    }
    if (in.event_type == ET::kDown) d_.sticky = false;
    d_.Lead();
    auto a = f_->Update(in);
    d_.Follow();
    auto b = dd_->Update(in);
    accepted_ = s.ok();
    if (s.ok() != a.ok) {
      if (Fuzzy()) return GiveUp();
      ctx_.Fail("%s: %s, expected %s", Str(in).c_str(), Str(s).c_str(), a.ok ? "OK" : "a rejection");
      return false;
    }
    if (!s.ok()) return true;
    step_ = std::max(step_, in.time.Value() - last_t_);
    if (in.event_type == ET::kDown) {  // what came before has no effect any more
      Fresh();
      d_.sticky = false;
      out_was_down_ = true;
      saved_.reset();
    }
    last_t_ = in.time.Value();
    last_in_ = in;
    if (ignore_catch_up && in.event_type == ET::kUp) {
      size_t n = f_->n_steps;
      if (out_.size() >= n && a.r.size() >= n) {
        out_.resize(n);
        a.r.resize(n);
        b.r.resize(n);
      }
    }
    return Compare(a, b, Str(in).c_str(), in.event_type == ET::kDown);
  }
  bool Predict() {
    if (!ok()) return false;
    ctx_.Log("Predict");
    ctx_.c.transitions++;
    out_.clear();
    absl::Status s = m_.Predict(out_);
    if (std::holds_alternative<sm::DisabledPredictorParams>(p_.prediction_params)) return true;
    if (!s.ok()) {
      ctx_.Fail("Predict: %s", Str(s).c_str());
      return false;
    }
    double diff[5], abs[5];
    memcpy(diff, diff_, sizeof diff);
    memcpy(abs, abs_, sizeof abs);
    bool sticky = d_.sticky;
    d_.Lead();
    auto a = f_->Predict();
    d_.Follow();
    auto b = dd_->Predict();
    bool r = Compare(a, b, "Predict", false);
    memcpy(diff_, diff, sizeof diff);
    memcpy(abs_, abs, sizeof abs);
    d_.sticky = sticky;
    return r;
  }

 private:
  struct Saved {
    RefModeler<float> f;
    RefModeler<double> d;
    bool sticky;
    double diff[5], abs[5];
    double step, last_t;
    Input last_in;
    Vec2 last_v;
    bool was_down;
  };
  void Fresh() {
    for (double& x : diff_) x = 0;
    for (double& x : abs_) x = 0;
    step_ = 1 / p_.sampling_params.min_output_rate;
    last_v_ = {0, 0};
    out_was_down_ = false;
  }
  bool Fuzzy() const { return d_.fuzzy || d_.sticky; }
  bool GiveUp() {
    ctx_.Log("(within rounding of a threshold: given up)");
    ctx_.c.skipped++;
    given_up_ = true;
    return false;
  }
  using OF = RefModeler<float>::Out;
  using OD = RefModeler<double>::Out;

  bool Near(double x, double f, double d, int k, double floor) {
    if (std::isnan(f)) return std::isnan(x) || std::isnan(d);
    if (!std::isfinite(f) || !std::isfinite(d)) return true;  // overflow: not this check's business
    double tol = 8 * std::max(std::fabs(f - d), diff_[k]) + 1e-6 * abs_[k] + floor;
    return std::fabs(x - f) <= tol || std::fabs(x - d) <= tol;
  }
  // Index of the first field that does not match, or -1.
  int Match(const Result& r, const RRes<float>& f, const RRes<double>& d, const std::array<float, 6>& slack) {
    const auto& pm = p_.position_modeler_params;
    double ps = std::max(f_->pos_scale, dd_->pos_scale);
    double fa = 2e-6 * (ps / pm.spring_mass_constant * .25 + pm.drag_constant * abs_[1]);
    double fv = fa * step_ + 1e-6 * abs_[1];
    double fp = 1e-6 * ps + fv * step_;
    if (pm.loop_contraction_mitigation_params.is_enabled) {
      // raw velocities and accelerations are quotients by time steps
      fv += 4e-6 * abs_[1];
      fa += 4e-6 * abs_[2];
    }
    fp += slack[3];
    fv += slack[4];
    fa += slack[5];
    if (fields_ & kPosition) {
      if (!Near(r.position.x, f.p.x, d.p.x, 0, fp) || !Near(r.position.y, f.p.y, d.p.y, 0, fp)) return 0;
    }
    if (fields_ & kVelocity) {
      if (!Near(r.velocity.x, f.v.x, d.v.x, 1, fv) || !Near(r.velocity.y, f.v.y, d.v.y, 1, fv)) return 1;
    }
    if (fields_ & kAcceleration) {
      if (!Near(r.acceleration.x, f.a.x, d.a.x, 2, fa) || !Near(r.acceleration.y, f.a.y, d.a.y, 2, fa)) return 2;
    }
    if (fields_ & kTime) {
      if (!(std::fabs(r.time.Value() - d.t) <= 1e-6 * (step_ + std::fabs(d.t - last_t_)) + 1e-12 * std::fabs(d.t))) return 3;
    }
    if ((fields_ & kStylus) && comparing_down_) {  // repeats the input
      return SameF(r.pressure, f.pr) && SameF(r.tilt, f.ti) && SameF(r.orientation, f.orr) ? -1 : 4;
    }
    if (fields_ & kStylus) {
      if (!Near(r.pressure, f.pr, d.pr, 3, 2e-6 + slack[0])) return 4;
      if (!Near(r.tilt, f.ti, d.ti, 3, 4e-6 + slack[1])) return 5;
      if (!NearAngle(r.orientation, f.orr, d.orr, slack[2])) return 6;
    }
    return -1;
  }
  bool NearAngle(double x, double f, double d, double slack) {
    if (std::isnan(f)) return std::isnan(x);
    if (f == -1) return x == -1;
    if (!(x >= 0 && x <= (float)(2 * kPiD))) return false;
    double fd = std::fabs(std::remainder(f - d, 2 * kPiD));
    double tol = 8 * fd + 1e-5 + slack;
    return std::fabs(std::remainder(x - f, 2 * kPiD)) <= tol;
  }
  void Learn(const RRes<float>& f, const RRes<double>& d) {
    auto one = [&](int k, double a, double b) {
      if (!std::isfinite(a) || !std::isfinite(b)) return;
      diff_[k] = std::max(diff_[k], std::fabs(a - b));
      abs_[k] = std::max(abs_[k], std::fabs(b));
    };
    one(0, f.p.x, d.p.x); one(0, f.p.y, d.p.y);
    one(1, f.v.x, d.v.x); one(1, f.v.y, d.v.y);
    one(2, f.a.x, d.a.x); one(2, f.a.y, d.a.y);
  }
  bool Compare(OF& a, OD& b, const char* what, bool down) {
    if (d_.fuzzy || d_.sticky) ctx_.c.ambiguous++;
    comparing_down_ = down;
    uint64_t h = Mix(71, out_.size());
    for (auto& r : out_) h = HashResult(h, r);
    ctx_.State(h);
    if (a.r.size() != out_.size()) {
      if (!(fields_ & (kMotion | kTime))) {  // not this property's business
        given_up_ = true;
        return false;
      }
      if (Fuzzy()) return GiveUp();
      ctx_.Fail("%s: %zu results, expected %zu", what, out_.size(), a.r.size());
      return false;
    }
    for (size_t k = 0; k < out_.size(); ++k) {
      ctx_.c.compared++;
      Learn(a.r[k], b.r[k]);
      int bad = Match(out_[k], a.r[k], b.r[k], a.slack[k]);
      if (ctx_.verbose)
        ctx_.Log("  %s\n    model {pos=(%.9g,%.9g) vel=(%.9g,%.9g) acc=(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g or=%.9g}%s",
                 Str(out_[k]).c_str(), a.r[k].p.x, a.r[k].p.y, a.r[k].v.x, a.r[k].v.y, a.r[k].a.x,
                 a.r[k].a.y, a.r[k].t, a.r[k].pr, a.r[k].ti, a.r[k].orr, a.qfuzzy[k] || b.qfuzzy[k] ? " (ambiguous projection)" : "");
      if (bad < 0) continue;
      bool loop = p_.position_modeler_params.loop_contraction_mitigation_params.is_enabled;
      auto rest = [&](V<float> m, Vec2 real) {  // at rest up to rounding only
        return m.x == 0 && m.y == 0 && (loop || real.x != 0 || real.y != 0);
      };
      bool at_rest = rest(a.tip[k].v, out_[k].velocity) || rest(a.tip[k].a, out_[k].acceleration);
      const auto& tp = a.tip[k];
      bool rounded = loop || tp.p.x != out_[k].position.x || tp.p.y != out_[k].position.y ||
                     tp.v.x != out_[k].velocity.x || tp.v.y != out_[k].velocity.y ||
                     tp.a.x != out_[k].acceleration.x || tp.a.y != out_[k].acceleration.y;
      bool tie = rounded && (a.qtie[k] || b.qtie[k]);
      if (!down && (a.qfuzzy[k] || b.qfuzzy[k] || at_rest || tie)) {
        auto af = f_->Alternatives(a, k);
        auto ad = dd_->Alternatives(b, k);
        bool any = false;
        for (size_t j = 0; j < af.size() && j < ad.size() && !any; ++j)
          any = (af[j].plausible || ad[j].plausible) && Match(out_[k], af[j].r, ad[j].r, a.slack[k]) < 0;
        if (any) {
          if (loop) return GiveUp();
          continue;
        }
        if (loop || Fuzzy()) return GiveUp();
      }
      if (Fuzzy()) return GiveUp();
      static const char* names[] = {"position", "velocity", "acceleration", "time", "pressure", "tilt", "orientation"};
      ctx_.Fail("%s: result %zu is %s; the model has pos=(%.9g,%.9g) vel=(%.9g,%.9g) acc=(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g or=%.9g; %s differs",
                what, k, Str(out_[k]).c_str(), a.r[k].p.x, a.r[k].p.y, a.r[k].v.x, a.r[k].v.y,
                a.r[k].a.x, a.r[k].a.y, a.r[k].t, a.r[k].pr, a.r[k].ti, a.r[k].orr, names[bad]);
      return false;
    }
    return true;
  }

  StrokeModelParams p_;
  Ctx& ctx_;
  int fields_;
  Decisions d_;
  std::optional<RefModeler<float>> f_;
  std::optional<RefModeler<double>> dd_;
  std::optional<Saved> saved_;
  StrokeModeler m_;
  Results out_;
  bool accepted_ = false;
  bool given_up_ = false;
  bool comparing_down_ = false;
  double diff_[5], abs_[5];
  double step_, last_t_ = 1e300;
  Input last_in_;
  Vec2 last_v_{0, 0};
  bool out_was_down_ = false;
};

}  // namespace vx

#endif  // VERIF_REF_H_
