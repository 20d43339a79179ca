// C02: rejected calls leave no trace.
#include "hist.h"
#include "variants.h"

using namespace vx;

namespace {

std::vector<StrokeModelParams> AllParams() {
  std::vector<StrokeModelParams> v;
  for (auto& c : StageConfigs()) v.push_back(c.p);
  return v;
}
Oracle& O() {
  static Oracle* o = new Oracle(AllParams());
  return *o;
}

struct BadParams {
  const char* what;
  StrokeModelParams p;
};
// Invalid parameters, one per group, all different from the valid ones in every
// other respect too (so that storing or applying any part of them would show).
const std::vector<BadParams>& Bad() {
  static std::vector<BadParams>* v = [] {
    auto* v = new std::vector<BadParams>;
    auto other = [] {
      StrokeModelParams p = BaseParams();
      p.wobble_smoother_params.timeout = Duration(.01);
      p.wobble_smoother_params.speed_floor = 5;
      p.position_modeler_params.spring_mass_constant = 1.f / 700;
      p.position_modeler_params.drag_constant = 30;
      p.sampling_params.min_output_rate = 77;
      p.sampling_params.end_of_stroke_max_iterations = 3;
      p.sampling_params.end_of_stroke_stopping_distance = .2f;
      p.stylus_state_modeler_params.max_input_samples = 1;
      KalmanPredictorParams k = BaseKalman();
      k.min_stable_iteration = 1;
      k.prediction_interval = Duration(.03);
      p.prediction_params = k;
      return p;
    };
    StrokeModelParams p = other();
    p.wobble_smoother_params.speed_floor = kNaN;
    v->push_back({"wobble speed_floor NaN", p});
    p = other();
    p.position_modeler_params.drag_constant = -1;
    v->push_back({"negative drag", p});
    p = other();
    p.sampling_params.min_output_rate = 0;
    v->push_back({"zero rate", p});
    p = other();
    p.stylus_state_modeler_params.max_input_samples = 0;
    p.prediction_params = sm::DisabledPredictorParams{};
    v->push_back({"zero input samples", p});
    p = other();
    auto k = BaseKalman();
    k.measurement_noise = -1;
    p.prediction_params = k;
    v->push_back({"negative noise", p});
    p = other();
    EnableLoopMitigation(p);
    p.stylus_state_modeler_params.use_stroke_normal_projection = false;
    v->push_back({"loop mitigation without normal projection", p});
    p = other();
    p.sampling_params.end_of_stroke_max_iterations = 1001;
    v->push_back({"too many iterations", p});
    p = other();
    EnableLoopMitigation(p);
    p.position_modeler_params.loop_contraction_mitigation_params.min_discrete_speed_samples = 0;
    v->push_back({"no speed samples", p});
    return v;
  }();
  return *v;
}

// The inputs of the rejected kinds, given the last input of the stroke.
constexpr int kNumBadInputs = 20;
const char* BadInput(int kind, const Input& l, bool in_stroke, Input& out) {
  Input b = In(ET::kMove, l.position.x + .6f, l.position.y - .3f,
               l.time.Value() + .009, .9f, .8f, 3.f);
  switch (kind) {
    case 0: out = l; return "duplicate";
    case 1: b.time = Time(l.time.Value() - .004); out = b; return "backwards move";
    case 2: b.position.x = kNaN; out = b; return "NaN x";
    case 3: b.position.y = kInf; out = b; return "inf y";
    case 4: b.time = Time(kDNaN); out = b; return "NaN time";
    case 5: b.time = Time(kDInf); out = b; return "inf time";
    case 6: b.event_type = static_cast<ET>(7); out = b; return "unknown event";
    case 7: b.event_type = ET::kDown; out = b; return "down in stroke";
    case 8: b.time = Time(l.time.Value() + 3); out = b; return "move too far in time";
    case 9: b.time = Time(l.time.Value() + 3); b.event_type = ET::kUp; out = b; return "up too far in time";
    case 10: b.position = {3e38f, -3e38f}; out = b; return "enormous move";
    case 11: b.position = {-3e38f, 3e38f}; b.event_type = ET::kUp; out = b; return "enormous up";
    case 12: b.time = Time(l.time.Value() - .02); b.event_type = ET::kUp; out = b; return "backwards up";
    case 13: b.position.y = -kInf; b.event_type = ET::kUp; b.pressure = -1; b.tilt = -1; b.orientation = -1; out = b; return "inf up, unknown stylus";
    case 14: b.time = Time(l.time.Value() + 9); b.pressure = -1; out = b; return "too far, unknown pressure";
    case 15: b.time = Time(l.time.Value() + 2e9); b.tilt = -1; b.orientation = kNaN; out = b; return "much too far, unknown tilt";
    case 16: b.time = Time(-kDInf); b.event_type = ET::kUp; out = b; return "-inf time up";
    case 17: b.event_type = ET::kDown; b.time = Time(l.time.Value() - 1); out = b; return "earlier down";
    case 18: b.event_type = static_cast<ET>(-1); b.time = Time(kDNaN); out = b; return "unknown event, NaN time";
    default: b.position.x = -kInf; b.position.y = kNaN; b.event_type = ET::kDown; out = b; return "inf down";
  }
}
constexpr int kNumRejects = kNumBadInputs + 8;

void Reject(int kind, Sim& s, Ctx& ctx) {
  if (kind < kNumBadInputs) {
    Input in;
    Input base = s.param() >= 0 && s.in_stroke() ? s.last() : In(ET::kMove, 1, 1, 5);
    const char* what = BadInput(kind, base, s.param() >= 0 && s.in_stroke(), in);
    ctx.Log("  [%s]", what);
    s.Update(in, 1 + kind % 3);
  } else {
    const BadParams& b = Bad()[kind - kNumBadInputs];
    s.ResetInvalid(b.p, b.what);
  }
}

// ---- Space 1: all call sequences over a small alphabet.
constexpr int kSeqOps = 14;
void SeqOp(int op, Sim& s, Ctx& ctx) {
  bool st = s.param() >= 0 && s.in_stroke();
  double t = st ? s.last().time.Value() : 3;
  Vec2 p = st ? s.last().position : Vec2{1, 2};
  switch (op) {
    case 0: s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f)); break;
    case 1: s.Update(In(ET::kMove, p.x + .5f, p.y + .2f, t + .008, .6f, .5f, 2.f)); break;
    case 2: s.Update(In(ET::kMove, p.x - .1f, p.y + .9f, t + .021, .2f, .9f, 5.9f)); break;
    case 3: s.Update(In(ET::kUp, p.x + .2f, p.y - .2f, t + .013, .5f, .1f, .3f)); break;
    case 4: s.Predict(); break;
    case 5: s.Save(); break;
    case 6: s.Restore(); break;
    case 7: Reject(8, s, ctx); break;
    case 8: Reject(10, s, ctx); break;
    case 9: Reject(13, s, ctx); break;
    case 10: Reject(7, s, ctx); break;
    case 11: Reject(kNumBadInputs + 1, s, ctx); break;
    case 12: Reject(kNumBadInputs + 4, s, ctx); break;
    case 13: Reject(14, s, ctx); break;
  }
}

void Seq(uint64_t i, Ctx& ctx, int depth, int first_param, int n_params) {
  Pick pick(i);
  Sim s(O(), ctx);
  s.Reset(first_param + pick(n_params));
  s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f));
  for (int d = 0; d < depth && s.ok(); ++d) SeqOp(pick(kSeqOps), s, ctx);
  s.Predict();
  if (s.rejected()) ctx.c.nontrivial++;
}

// ---- Space 2: every rejected call at every position (pairs: at every pair of
// positions) of long strokes.
void Long(uint64_t i, Ctx& ctx, int len, int n_rejects) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int shape = pick(kNumShapes);
  int timing = pick(kNumTimings);
  int stylus = shape % kNumStylus;
  std::vector<int> pos, kind;
  for (int k = 0; k < n_rejects; ++k) {
    pos.push_back(pick(len));
    kind.push_back(pick(kNumRejects));
  }
  Stroke st = MakeStroke(shape, timing, stylus, len);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len && s.ok(); ++j) {
    for (int k = 0; k < n_rejects; ++k)
      if (pos[k] == j) Reject(kind[k], s, ctx);
    if (j % 5 == 4) s.Predict();
    s.Update(st[j]);
  }
  // The next stroke is not affected either.
  s.Update(In(ET::kDown, 1, 2, 30, .4f, .3f, 1.f));
  s.Update(In(ET::kMove, 1.4f, 2.2f, 30.01, .4f, .3f, 1.f));
  s.Predict();
  if (s.rejected()) ctx.c.nontrivial++;
}

// ---- A rejected call between Save and Restore, or before or after them.
void Around(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int save = pick(len), rej = pick(len + 1), restore = pick(len + 1), kind = pick(kNumRejects);
  int shape = pick(kNumShapes);
  Stroke st = MakeStroke(shape, shape % kNumTimings, shape % kNumStylus, len);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j <= len && s.ok(); ++j) {
    if (j < len) s.Update(st[j]);
    if (j == save) s.Save();
    if (j == rej) Reject(kind, s, ctx);
    if (j == restore) {
      s.Restore();
      s.Predict();
      if (s.in_stroke()) {
        Input l = s.last();
        s.Update(In(ET::kMove, l.position.x + .2f, l.position.y + .3f, l.time.Value() + .009, .5f, .4f, .3f));
        s.Predict();
      }
    }
  }
  s.Restore();
  s.Predict();
  if (s.in_stroke()) s.Update(In(ET::kUp, s.last().position.x + .5f, s.last().position.y, s.last().time.Value() + .01, .5f, .4f, .3f));
  if (s.rejected()) ctx.c.nontrivial++;
}

// ---- Space 3: before initialization.
void Uninit(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  Sim s(O(), ctx);
  int cfg = pick(O().NumParams());
  for (int d = 0; d < depth; ++d) {
    switch (int op = pick(8)) {
      case 0: s.Update(In(ET::kDown, 4, 4, 1, .3f)); break;
      case 1: s.Update(In(ET::kMove, 4, 5, 1.5, .3f)); break;
      case 2: s.Update(In(ET::kUp, 4, 6, 2, .3f)); break;
      case 3: s.Predict(); break;
      case 4: s.ResetKeep(); break;
      case 5: s.Save(); break;
      case 6: s.Restore(); break;
      default: Reject(kNumBadInputs + 2, s, ctx); break;
    }
  }
  s.Reset(cfg);
  for (const Input& in : MakeStroke(kLoop, kGeneric, kAllKnown, 8)) {
    s.Update(in);
    s.Predict();
  }
  if (s.rejected()) ctx.c.nontrivial++;
}

// ---- Hundreds of rejected calls, in a row and in between.
void Endurance(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams()), kind = pick(kNumRejects), kind2 = pick(3) * 9 + kind;
  int shape = pick(kNumShapes);
  Stroke st = MakeStroke(shape, shape % kNumTimings, shape % kNumStylus, len);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len && s.ok(); ++j) {
    for (int k = 0; k < (j == 9 ? 300 : 2) && s.ok(); ++k) Reject((k % 2 ? kind : kind2) % kNumRejects, s, ctx);
    s.Update(st[j]);
  }
  s.Update(In(ET::kDown, 1, 2, 30, .4f, .3f, 1.f));
  s.Update(In(ET::kMove, 1.4f, 2.2f, 30.01, .4f, .3f, 1.f));
  s.Predict();
  if (s.rejected()) ctx.c.nontrivial++;
}

// ---- Rejected calls under many different parameters.
Oracle& VO() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : Variants()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}
void Params(uint64_t i, Ctx& ctx, int len, int places) {
  Pick pick(i);
  int cfg = pick(VO().NumParams()), kind = pick(kNumRejects), at = pick(places), shape = pick(kNumShapes);
  at = 1 + at * (len + 1 - 1) / std::max(1, places - 1);  // from after the Down to after the Up
  Stroke st = MakeStroke(shape, (shape + kind) % kNumTimings, shape % kNumStylus, len);
  Sim s(VO(), ctx);
  s.Reset(cfg);
  for (int j = 0; j <= len && s.ok(); ++j) {
    if (j == at) {
      Reject(kind, s, ctx);
      s.Predict();
    }
    if (j < len) s.Update(st[j]);
  }
  if (s.in_stroke()) s.ResetKeep();
  for (Input in : MakeStroke((shape + 1) % kNumShapes, shape % kNumTimings, shape % kNumStylus, 6)) {
    in.time = in.time + Duration(40);
    s.Update(in);
    if (in.event_type == ET::kMove) s.Predict();
  }
  if (s.rejected()) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a call sequence decoded from its index; non-trivial: it contains at least one rejected call and the calls after it were compared with a modeler that never saw it");
  std::vector<Space> v;
  int np = O().NumParams();
  int depth = thorough ? 6 : 5;
  v.push_back({"sequences", "all sequences of " + std::to_string(depth) + " of 14 calls (valid inputs, Predict, Save, Restore, 7 kinds of rejected calls) after a Down, in " + std::to_string(np) + " configurations",
               np * Pow(kSeqOps, depth), [=](uint64_t i, Ctx& c) { Seq(i, c, depth, 0, np); }});
  int len = 32;
  v.push_back({"one-reject", "28 kinds of rejected calls at each of 32 positions of 48 strokes in every configuration",
               (uint64_t)np * kNumShapes * kNumTimings * len * kNumRejects,
               [=](uint64_t i, Ctx& c) { Long(i, c, len, 1); }});
  int len2 = thorough ? 24 : 9;
  v.push_back({"two-rejects", "all pairs of rejected calls at all pairs of " + std::to_string(len2) + " positions of 48 strokes in every configuration",
               (uint64_t)np * (thorough ? kNumShapes * kNumTimings : 5) * Pow((uint64_t)len2 * kNumRejects, 2),
               [=](uint64_t i, Ctx& c) {
                 if (thorough) return Long(i, c, len2, 2);
                 // quick: 5 of the strokes
                 Pick p(i);
                 int cfg = p(np), t = p(5);
                 uint64_t j = cfg + np * ((uint64_t)(t + 1) % kNumShapes + kNumShapes * ((uint64_t)t + kNumTimings * p.rest()));
                 Long(j, c, len2, 2);
               }});
  int al = thorough ? 14 : 8;
  v.push_back({"around-save", "28 kinds of rejected calls, Save and Restore, each at every position of strokes of " + std::to_string(al) + " inputs and after their end",
               (uint64_t)np * al * (al + 1) * (al + 1) * kNumRejects * kNumShapes, [=](uint64_t i, Ctx& c) { Around(i, c, al); }});
  int ud = thorough ? 6 : 4;
  v.push_back({"uninitialized", "all sequences of " + std::to_string(ud) + " of 8 calls before the first valid Reset",
               np * Pow(8, ud), [=](uint64_t i, Ctx& c) { Uninit(i, c, ud); }});
  int pl = thorough ? 15 : 4;
  v.push_back({"parameters", "28 kinds of rejected calls at " + std::to_string(pl) + " positions of 8 strokes and after their end, the rest of the stroke and another one; " + VX_VARIANTS_TEXT(VO().NumParams()),
               (uint64_t)VO().NumParams() * kNumRejects * pl * kNumShapes, [=](uint64_t i, Ctx& c) { Params(i, c, 14, pl); }});
  int en = thorough ? 400 : 130;
  v.push_back({"endurance", "two rejected calls of up to two kinds before each of " + std::to_string(en) + " inputs, and 300 before one of them; 8 strokes, 6 configurations",
               (uint64_t)np * kNumRejects * 3 * kNumShapes, [=](uint64_t i, Ctx& c) { Endurance(i, c, en); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C02", Make); }
