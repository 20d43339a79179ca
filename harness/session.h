// A stroke within a history: what happened before on the same modeler, and calls
// in between that are rejected, undone or only look.
#ifndef VERIF_SESSION_H_
#define VERIF_SESSION_H_

#include "common.h"

namespace vx {

// R is a runner with Update, Predict, Reset, Save, Restore and Rejected, each of
// which returns false when there is nothing more to learn.

constexpr int kBefore = 8;
template <typename R>
bool Before(R& r, int kind, const StrokeModelParams& p) {
  auto stroke = [&](int shape, int stylus, int len, bool finish, float off, double later, bool predict) {
    Stroke s = MakeStroke(shape, (shape + 1) % kNumTimings, stylus, len + (finish ? 0 : 1));
    if (!finish) s.pop_back();
    for (Input in : s) {
      in.position = {in.position.x + off, in.position.y - 2 * off};
      in.time = Time(in.time.Value() + later);
      if (!r.Update(in)) return false;
      if (in.event_type != ET::kMove && !r.accepted()) return false;  // too many outputs
      if (predict && in.event_type != ET::kUp && !r.Predict()) return false;
    }
    return true;
  };
  switch (kind) {
    case 1: return stroke(1, kWrapOrient, 9, true, 6, -20, false);
    case 2: return stroke(2, kAllUnknown, 9, true, -5, 60, true) && r.Save();
    case 3: return stroke(3, kPressureLost, 12, true, 0, 0, true) && stroke(4, kAllKnown, 2, true, 3, 60, false);
    case 4: return stroke(5, kAllKnown, 7, false, 4, 60, true) && r.Save() && r.Reset(nullptr);
    case 5: return stroke(6, kAllUnknown, 7, false, -4, -20, false) && r.Reset(&p);
    case 6: {
      StrokeModelParams o = BaseParams();
      o.sampling_params.min_output_rate = 120;
      o.wobble_smoother_params.timeout = Duration(.1);
      o.stylus_state_modeler_params.max_input_samples = 4;
      o.prediction_params = BaseKalman();
      return r.Reset(&o) && stroke(0, kWrapOrient, 9, false, 1, 60, true) && r.Save() && r.Reset(&p);
    }
    case 7: return stroke(1, kAllKnown, 6, false, 2, -20, true) && r.Save() && r.Reset(nullptr) && stroke(2, kAllKnown, 6, true, -3, 60, false);
    default: return true;
  }
}

constexpr int kBetween = 12;
template <typename R>
bool Between(R& r, int kind, const Input& last) {
  Input a = last;
  a.event_type = ET::kMove;
  Input away = a;  // a Move that would be accepted
  away.position = {last.position.x + 3, last.position.y - 2};
  away.time = Time(last.time.Value() + .02);
  away.pressure = away.tilt = away.orientation = -1;
  Input further = away;
  further.position = {last.position.x - 2, last.position.y - 2.5f};
  further.time = Time(last.time.Value() + .031);
  Input up = further;
  up.event_type = ET::kUp;
  up.time = Time(last.time.Value() + .04);
  switch (kind) {
    case 1: return r.Predict();
    case 2: away.time = Time(last.time.Value() - .001); return r.Rejected(away);
    case 3: return r.Rejected(last);
    case 4: away.event_type = ET::kDown; return r.Rejected(away);
    case 5: away.time = Time(last.time.Value() + 1e9); return r.Rejected(away);
    case 6: away.position.y = kNaN; return r.Rejected(away);
    case 7: return r.Save() && r.Update(away) && r.Update(further) && r.Restore();
    case 8: return r.Save() && r.Update(away) && r.Predict() && r.Update(up) && r.Restore();
    case 9: return r.Save() && r.Update(up) && r.Restore() && r.Update(away) && r.Restore() && r.Predict();
    case 10: return r.Save() && r.Predict() && r.Rejected(last) && r.Restore() && r.Restore();
    case 11: return r.Restore();  // to an earlier save if there is one
    default: return true;
  }
}

// Cases: what came before, two calls in between and where, the stroke.
inline uint64_t SessionCases(bool thorough) { return (uint64_t)kBefore * kBetween * kBetween * (thorough ? 24 : 4) * kNumShapes; }
template <typename R>
bool Session(Pick& pick, R& r, const StrokeModelParams& p, bool thorough, bool predict) {
  int before = pick(kBefore), one = pick(kBetween), two = pick(kBetween);
  int where = pick(thorough ? 24 : 4), shape = pick(kNumShapes);
  int a = thorough ? 1 + where / 4 : 2 + 3 * (where / 2), b = a + (thorough ? where % 4 : 3 * (where % 2));
  if (!Before(r, before, p)) return false;
  const int stylus[] = {kAllKnown, kWrapOrient, kAllUnknown, kAllKnown};
  Stroke s = MakeStroke(shape, (shape + before) % kNumTimings, stylus[(shape + one) % 4], 12);
  size_t k = 0;
  Input last;
  bool began = false, saved = false;
  Input saved_last;
  for (const Input& in : s) {
    for (int j = 0; j < 2; ++j) {
      int ev = j ? two : one;
      if ((int)k != (j ? b : a) || !began) continue;
      if (ev == 11 && saved) last = saved_last;
      if (ev >= 7 && ev <= 10) saved = true, saved_last = last;
      if (!Between(r, ev, last)) return false;
    }
    ++k;
    if (began && in == last) continue;
    if (!r.Update(in)) return false;
    began = true;
    if (r.accepted()) last = in;
    if (predict && in.event_type != ET::kUp && !r.Predict()) return false;
  }
  return true;
}

// Strokes under every combination of stages, with predictions, and a Save and two
// Restores on the way.
template <typename R>
bool StageStroke(Pick& pick, R& r) {
  int shape = pick(kNumShapes), timing = pick(kNumTimings), save = pick(4);
  Stroke s = MakeStroke(shape, timing, (shape + 2 * timing + save) % kNumStylus, 26);
  bool began = false;
  Input last;
  auto give = [&](size_t from, size_t to) {
    for (size_t j = from; j < to; ++j) {
      if (began && s[j] == last) continue;
      if (!r.Update(s[j])) return false;
      began = true;
      if (r.accepted()) last = s[j];
      if (s[j].event_type != ET::kUp && (j % 3 == 0 || j < 6) && !r.Predict()) return false;
    }
    return true;
  };
  if (save == 0) return give(0, s.size());
  size_t at = save == 1 ? 1 : save == 2 ? 9 : 24;
  if (!give(0, at)) return false;
  Input here = last;
  if (!r.Save() || !give(at, save == 2 ? at + 4 : s.size()) || !r.Restore()) return false;
  last = here;
  if (!give(at, at + 1)) return false;
  last = here;
  return r.Restore() && give(at, s.size());
}
#define VX_STAGES_TEXT "48 strokes of 26 inputs with predictions, without a Save or with one at one of 3 places, Restore, and Restore again; all 36 combinations of stages (smoothing, predictor, angle limit, projection, loop mitigation)"

// A stroke of more inputs than fit in 16 bits, back and forth, with predictions now
// and then and at the end.
constexpr int kMarathon = 66000;
template <typename R>
bool MarathonStroke(Pick& pick, R& r, bool deep) {
  const int n = 97, kAll = deep ? 5000 : kMarathon;
  Stroke s = MakeStroke(pick(2) ? kLoop : kZigzag, kGeneric, kAllKnown, n + 1);
  double lap = s[n].time.Value() - s[0].time.Value();
  for (int j = 0; j < kAll; ++j) {
    int k = j % n;
    Input in = s[k];
    in.position = s[j / n % 2 ? n - 1 - k : k].position;
    in.time = s[k].time + Duration(lap * (j / n));
    if (deep) {  // now slow, now fast
      float f = 1 + .8f * std::sin(j * .0031);
      in.position = {in.position.x * f, in.position.y * f};
    }
    in.event_type = j == 0 ? ET::kDown : j == kAll - 1 ? ET::kUp : ET::kMove;
    if (j % 500 == 0) Alive();
    if (!r.Update(in)) return false;
    bool now = j % 1021 == 0 || j > kAll - 30;
    for (int m = 64; m <= 65536; m *= 2) now |= j > m - 4 && j < m + 24;  // where a count might wrap
    if (in.event_type != ET::kUp && now && !r.Predict()) return false;
  }
  return true;
}
// The combinations (of AllStages) that it is modeled with.
constexpr int kMarathonStages[] = {1, 2, 9, 15, 24, 26};
constexpr int kMarathonCases = 24;
// Windows of more than a thousand inputs.
inline bool Deepen(StrokeModelParams& p) {
  p.wobble_smoother_params.timeout = Duration(20);
  p.wobble_smoother_params.speed_floor = 0;
  p.wobble_smoother_params.speed_ceiling = 300;
  auto& q = p.stylus_state_modeler_params;
  q.max_input_samples = 1500;
  if (q.use_stroke_normal_projection) q.min_input_samples = 1500;
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  if (l.is_enabled) {
    l.min_discrete_speed_samples = 1500;
    l.speed_lower_bound = 0;
    l.speed_upper_bound = 300;
  }
  if (auto* k = std::get_if<sm::KalmanPredictorParams>(&p.prediction_params)) {
    k->max_time_samples = 1500;
    k->min_stable_iteration = 1100;
    k->confidence_params.desired_number_of_samples = 2000;
  }
  return true;
}
#define VX_MARATHON_TEXT "2 strokes of 66000 inputs with predictions now and then, around each power of two and at the end; 6 combinations of stages; the same for 5000 inputs with windows and counts of more than 1000"

#define VX_SESSION_TEXT "what came before on the modeler (8 histories: finished and abandoned strokes, Reset with the same and other parameters, a state saved), and two of 12 calls in between (rejected inputs, Predict, Save and Restore around Moves, predictions or an Up)"

}  // namespace vx

#endif  // VERIF_SESSION_H_
