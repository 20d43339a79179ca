// C04: Predict never disturbs the stroke and is repeatable. The expected
// outputs come from modelers that call Predict at most once, as their last call.
#include "hist.h"
#include "variants.h"

using namespace vx;

namespace {

Oracle& O() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : StageConfigs()) v.push_back(c.p);
    // more predictor variants
    StrokeModelParams p = BaseParams();
    p.sampling_params.max_outputs_per_call = 5;
    p.sampling_params.end_of_stroke_max_iterations = 50;
    v.push_back(p);
    p = BaseParams();
    EnableLoopMitigation(p);
    KalmanPredictorParams k = BaseKalman();
    k.min_stable_iteration = 1;
    k.confidence_params.max_estimation_distance = 50;
    k.confidence_params.min_travel_speed = 0;
    k.confidence_params.max_travel_speed = 0;
    p.prediction_params = k;
    v.push_back(p);
    return new Oracle(v);
  }();
  return *o;
}

// All subsets of the points of a stroke.
void Subsets(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  uint64_t mask = pick(1ull << len);
  int cfg = pick(O().NumParams());
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (shape + timing) % kNumStylus, len + 1);
  Sim s(O(), ctx);
  s.Reset(cfg);
  static const int kPrefill[] = {0, 3, 60};
  for (int j = 0; j <= len && s.ok(); ++j) {
    s.Update(st[j]);
    if (j < len && (mask >> j & 1)) s.Predict(kPrefill[(j + cfg) % 3]);
  }
  s.Predict();
  if (mask) ctx.c.nontrivial++;
}

// Long strokes: several predictions at one position (or at every k-th), none
// elsewhere; the rest of the stroke, a second stroke, and the same prediction
// again must be unaffected.
void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int at = pick(len);
  static const int kTimes[] = {1, 2, 5, 33};
  int times = kTimes[pick(4)];
  int mode = pick(3);  // at one position, from there on, every third from there on
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (2 * shape + timing) % kNumStylus, len + 1);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j <= len && s.ok(); ++j) {
    s.Update(st[j]);
    if (j >= at && (mode == 0 ? j == at : mode == 1 || (j - at) % 3 == 0))
      for (int k = 0; k < (j == at ? times : 1); ++k) s.Predict(k % 4 * 7);
  }
  s.Predict();
  Stroke st2 = MakeStroke((shape + 1) % kNumShapes, timing, shape % kNumStylus, 7);
  for (const Input& in : st2) s.Update(in);
  ctx.c.nontrivial++;
}

// With Save, Restore, rejected inputs and resets in between.
constexpr int kSeqOps = 10;
void Seq(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  Sim s(O(), ctx);
  s.Reset(pick(O().NumParams()));
  Stroke st = MakeStroke(kLoop, kGeneric, kAllKnown, 6);
  int warm = pick(2) * 4;  // predictors that are stable, or not
  s.Update(st[0]);
  for (int j = 1; j <= warm; ++j) s.Update(st[j]);
  int predicts = 0;
  for (int d = 0; d < depth && s.ok(); ++d) {
    bool in = s.in_stroke();
    double t = in ? s.last().time.Value() : 3;
    Vec2 p = in ? s.last().position : Vec2{1, 2};
    switch (pick(kSeqOps)) {
      case 0: case 1: s.Predict(d); ++predicts; break;
      case 2: s.Update(In(ET::kMove, p.x + .5f, p.y + .2f, t + .008, .6f, .5f, 2.f)); break;
      case 3: s.Update(In(ET::kMove, p.x - .1f, p.y + .9f, t + .021, -1, .9f, 5.9f)); break;
      case 4: s.Update(In(ET::kUp, p.x + .2f, p.y - .2f, t + .013, .5f, .1f, .3f)); break;
      case 5: s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f)); break;
      case 6: s.Save(); break;
      case 7: s.Restore(); break;
      case 8: s.ResetKeep(); break;
      case 9: s.Update(In(ET::kMove, p.x, p.y, t, .2f, .2f, .2f)); break;
    }
  }
  s.Predict();
  if (predicts) ctx.c.nontrivial++;
}

// Thousands of predictions.
void Endurance(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams()), times = pick(2) ? 12 : 1;
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (2 * shape + timing) % kNumStylus, len);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len && s.ok(); ++j) {
    s.Update(st[j]);
    for (int k = 0; k < (j == 30 ? 1000 : times) && s.ok(); ++k) s.Predict(k % 4 * 7);
  }
  Stroke st2 = MakeStroke((shape + 1) % kNumShapes, timing, shape % kNumStylus, 7);
  for (const Input& in : st2) s.Update(in);
  ctx.c.nontrivial++;
}

// Hundreds of results in each call and each prediction; large vectors.
Oracle& Large() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : StageConfigs()) {
      c.p.sampling_params.min_output_rate = 4000;
      c.p.sampling_params.max_outputs_per_call = 6000;
      c.p.sampling_params.end_of_stroke_max_iterations = 1000;
      c.p.sampling_params.end_of_stroke_stopping_distance = 1e-5f;
      if (auto* k = std::get_if<KalmanPredictorParams>(&c.p.prediction_params)) {
        k->prediction_interval = Duration(.2);
        k->confidence_params.max_estimation_distance = 50;
      }
      v.push_back(c.p);
    }
    return new Oracle(v);
  }();
  return *o;
}
void Buffers(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(Large().NumParams()), at = pick(len), mode = pick(3);
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (shape + timing) % kNumStylus, len + 1);
  Sim s(Large(), ctx);
  s.Reset(cfg);
  for (int j = 0; j <= len && s.ok(); ++j) {
    s.Update(st[j]);
    if (mode == 0 ? j == at : mode == 1 ? j >= at : j == at || j == at + 2) s.Predict(j == at ? 0 : 1000);
    if (j == at) s.Predict(mode == 0 && at % 4 == 0 ? 200000 : 6001);
  }
  Stroke st2 = MakeStroke((shape + 1) % kNumShapes, timing, shape % kNumStylus, 5);
  for (const Input& in : st2) {
    s.Update(in);
    if (mode == 1) s.Predict();
  }
  ctx.c.nontrivial++;
}

// ---- Predictions under many different parameters.
Oracle& VO() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : Variants()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}
void Params(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(VO().NumParams()), at = pick(len - 1), mode = pick(3), shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (shape + at) % kNumStylus, len);
  Sim s(VO(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len && s.ok(); ++j) {
    s.Update(st[j]);
    if (mode == 0 ? j == at : mode == 1 ? j >= at : j <= at) s.Predict(j % 3 * 20);
    if (j == at) s.Predict(1);
  }
  for (Input in : MakeStroke((shape + 1) % kNumShapes, shape % kNumTimings, shape % kNumStylus, 5)) {
    in.time = in.time + Duration(40);
    s.Update(in);
    if (in.event_type == ET::kMove) s.Predict();
  }
  ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a stroke with Predict calls at the points decoded from its index; non-trivial: Predict was called at least once before the last call");
  std::vector<Space> v;
  uint64_t np = O().NumParams();
  int len = thorough ? 13 : 11;
  v.push_back({"subsets", "all subsets of the " + std::to_string(len) + " points of 48 strokes, 8 configurations",
               (1ull << len) * np * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Subsets(i, c, len); }});
  int ll = thorough ? 64 : 40;
  v.push_back({"long", "1, 2, 5 or 33 predictions at each of " + std::to_string(ll) + " positions (alone or repeated from there on) of 48 strokes, 8 configurations",
               np * ll * 4 * 3 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Long(i, c, ll); }});
  int d = thorough ? 6 : 5;
  v.push_back({"sequences", "all sequences of " + std::to_string(d) + " of 10 calls, 8 configurations, predictor stable or not", np * 2 * Pow(kSeqOps, d),
               [=](uint64_t i, Ctx& c) { Seq(i, c, d); }});
  int pl = thorough ? 40 : 14;
  v.push_back({"parameters", "predictions at one, at all earlier, at all later points of 48 strokes of " + std::to_string(pl) + " inputs, and another stroke; " + VX_VARIANTS_TEXT(VO().NumParams()),
               (uint64_t)VO().NumParams() * (pl - 1) * 3 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Params(i, c, pl); }});
  int en = thorough ? 400 : 120;
  v.push_back({"endurance", "1 or 12 predictions after each of " + std::to_string(en) + " inputs, 1000 after one, of 48 strokes, 8 configurations",
               np * 2 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Endurance(i, c, en); }});
  int bl = thorough ? 30 : 12;
  v.push_back({"buffers", "hundreds of results per call: one, two or all later of " + std::to_string(bl) + " points of 48 strokes, and a second stroke; vectors of up to 200000 results to be replaced; 6 configurations",
               6ull * bl * 3 * kNumShapes * kNumTimings, [=](uint64_t i, Ctx& c) { Buffers(i, c, bl); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C04", Make); }
