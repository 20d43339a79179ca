// C03: Save and Restore rewind exactly.
#include "hist.h"
#include "variants.h"

using namespace vx;

namespace {

Oracle& O() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : StageConfigs()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}

// What happens between Save and Restore.
constexpr int kBranches = 15;
void BranchStep(int kind, int k, Sim& s) {
  if (!s.in_stroke()) {
    s.Predict();
    return;
  }
  Input l = s.last();
  double t = l.time.Value();
  Vec2 p = l.position;
  float pr = .35f + .1f * (k % 4), ti = .6f - .1f * (k % 3), orr = 1.2f + 1.1f * (k % 4);
  Input b = In(ET::kMove, p.x + .4f, p.y + .3f * (k % 3 - 1), t + .0083, pr, ti, orr);
  switch (kind) {
    case 0: break;
    case 1: b.pressure = -1; break;
    case 2: b.tilt = -1; break;
    case 3: b.orientation = kNaN; break;
    case 4: b.time = Time(t + .31); break;      // empties every window
    case 5: b.time = l.time; b.position = {p.x + 2.5f, p.y - 1}; break;
    case 6: b.pressure = kNaN; b.tilt = -.2f; b.orientation = -1; break;
    case 7: s.Predict(); b.position = {p.x - 5, p.y + 5}; break;
    case 8: b.event_type = k == 0 ? ET::kMove : ET::kUp; break;
    case 9: b.position = p; b.time = Time(t + .004); break;  // standing still
    case 10: s.Update(In(ET::kMove, p.x, p.y, t + 1e6)); break;  // rejected
    case 12: s.Update(In(ET::kDown, p.x + 1, p.y, t + .01, -1, .2f, .3f)); break;  // rejected
    case 13: s.Update(In(ET::kUp, p.x + 1, p.y, t + 1e3, .2f, -1, .3f)); break;    // rejected
    case 14: {
      StrokeModelParams bad = BaseParams();
      bad.sampling_params.end_of_stroke_max_iterations = 1001;
      s.ResetInvalid(bad, "too many iterations");
      s.Update(In(ET::kMove, kNaN, p.y, t + .01));
      break;
    }
    case 11: b.position = {p.x + .01f, p.y + .01f}; b.time = Time(t + .02); break;
  }
  s.Update(b);
}

void Finish(Sim& s, const Stroke& st, size_t from, int every) {
  for (size_t j = from; j < st.size() && s.ok(); ++j) {
    s.Update(st[j]);
    if (j % every == 0) s.Predict();
  }
}

// ---- all sequences
constexpr int kSeqOps = 11;
void SeqOp(int op, Sim& s) {
  bool st = s.in_stroke();
  double t = st ? s.last().time.Value() : 3;
  Vec2 p = st ? s.last().position : Vec2{1, 2};
  switch (op) {
    case 0: s.Save(); break;
    case 1: s.Restore(); break;
    case 2: s.Update(In(ET::kMove, p.x + .5f, p.y + .2f, t + .008, .6f, .5f, 2.f)); break;
    case 3: s.Update(In(ET::kMove, p.x - .1f, p.y + .9f, t + .021, -1, .9f, 5.9f)); break;
    case 4: s.Update(In(ET::kMove, p.x - 1.1f, p.y + .1f, t + .13, .2f, -1, -1)); break;
    case 5: s.Update(In(ET::kUp, p.x + .2f, p.y - .2f, t + .013, .5f, .1f, .3f)); break;
    case 6: s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f)); break;
    case 7: s.Predict(); break;
    case 8: s.ResetKeep(); break;
    case 9: s.Reset((s.param() + 1) % O().NumParams()); break;
    case 10: s.Update(In(ET::kDown, 4, -2, 1, .7f, .1f, 6.f)); break;
  }
}
void Seq(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  Sim s(O(), ctx);
  s.Reset(pick(O().NumParams()));
  s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f));
  for (int d = 0; d < depth && s.ok(); ++d) SeqOp(pick(kSeqOps), s);
  s.Predict();
  if (s.in_stroke()) {
    Input l = s.last();
    s.Update(In(ET::kMove, l.position.x + .3f, l.position.y + .4f, l.time.Value() + .01, .5f, .5f, .5f));
    s.Predict();
    s.Update(In(ET::kUp, l.position.x + .3f, l.position.y + .4f, l.time.Value() + .02, .5f, .5f, .5f));
  }
  if (s.restored()) ctx.c.nontrivial++;
}

// ---- excursions within one timestamp that come back to the same input: equal last
// inputs do not make equal states
void SameInput(uint64_t i, Ctx& ctx, int depth) {
  Pick pick(i);
  Sim s(O(), ctx);
  s.Reset(pick(O().NumParams()));
  s.Update(In(ET::kDown, 1, 2, 3, .4f, .3f, 1.f));
  double t = 3;
  for (int d = 0; d < depth && s.ok(); ++d) switch (pick(5)) {
    case 0: s.Update(In(ET::kMove, 1.4f, 2.3f, t, .5f, .3f, 1.f)); break;
    case 1: s.Update(In(ET::kMove, 1.9f, 1.7f, t, .2f, .8f, 2.f)); break;
    case 2: s.Save(); break;
    case 3: s.Restore(); t = s.last().time.Value(); break;
    case 4: t += .0078125; s.Update(In(ET::kMove, 1.4f, 2.3f, t, .5f, .3f, 1.f)); break;
  }
  s.Predict();
  s.Update(In(ET::kMove, 1.7f, 2.7f, t + .01, .5f, .5f, .5f));
  s.Predict();
  s.Update(In(ET::kUp, 1.6f, 2.4f, t + .02, .5f, .5f, .5f));
  if (s.restored()) ctx.c.nontrivial++;
}

// ---- one save and restore at every position of long strokes
void Long(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int at = pick(len);            // Save before input `at`+1 (0: right after Down)
  int kind = pick(kBranches);
  static const int kJ[] = {1, 2, 4, 12};
  int blen = kJ[pick(4)];
  int times = 1 + pick(2);
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (shape + timing) % kNumStylus, len + 2);
  Sim s(O(), ctx);
  s.Reset(cfg);
  int j = 0;
  for (; j <= at; ++j) s.Update(st[j]);
  s.Save();
  for (int r = 0; r < times && s.ok(); ++r) {
    for (int k = 0; k < blen; ++k) BranchStep((kind + r) % kBranches, k, s);
    s.Restore();
    s.Predict();
  }
  Finish(s, st, j, 3);
  s.Restore();  // even the end of the stroke is undone
  s.Predict();
  Finish(s, st, j, 5);
  if (s.restored()) ctx.c.nontrivial++;
}

// ---- two saves: every i <= j, restores after each
void TwoSaves(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams());
  int a = pick(len), b = pick(len);
  int kind = pick(kBranches);
  int variant = pick(4);
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, (2 * shape + timing) % kNumStylus, len + 2);
  Sim s(O(), ctx);
  s.Reset(cfg);
  int j = 0;
  for (; j <= a; ++j) s.Update(st[j]);
  s.Save();
  for (int k = 0; k < 2; ++k) BranchStep(kind, k, s);
  if (variant & 1) s.Restore();
  for (int k = 0; k < b && s.ok() && s.in_stroke(); ++k) BranchStep((kind + 5) % kBranches, k + 1, s);
  if (variant & 2) s.Save();
  for (int k = 0; k < 2; ++k) BranchStep((kind + 3) % kBranches, k, s);
  s.Restore();
  s.Predict();
  BranchStep(0, 1, s);
  s.Predict();
  s.Restore();
  BranchStep(11, 2, s);
  s.Predict();
  if (s.restored()) ctx.c.nontrivial++;
}

// ---- a save made in one stroke is never used in another one
void Stale(uint64_t i, Ctx& ctx) {
  Pick pick(i);
  int cfg = pick(O().NumParams()), cfg2 = pick(O().NumParams());
  int at = pick(9), end = pick(5), len2 = pick(7);
  int restore_at = pick(8);
  int shape = pick(kNumShapes), timing = pick(kNumTimings);
  Stroke st = MakeStroke(shape, timing, kAllKnown, 11);
  Stroke st2 = MakeStroke((shape + 3) % kNumShapes, (timing + 2) % kNumTimings, kPressureLost, 12);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < 11; ++j) {
    if (j == 10 && end != 0) break;
    s.Update(st[j]);
    if (j == at) s.Save();
  }
  if (end == 1) s.ResetKeep();
  if (end == 2) s.Reset(cfg2);
  if (end == 3) { s.Reset(cfg2); s.Restore(); }
  if (end == 4) { s.Update(st[10]); s.Save(); }
  if (restore_at == 7) s.ResetKeep(), s.Restore();
  for (int j = 0; j <= len2 && s.ok(); ++j) {
    s.Update(st2[j]);
    if (j == restore_at) s.Restore();
    s.Predict();
  }
  s.Save();
  BranchStep(6, 0, s);
  s.Restore();
  s.Predict();
  BranchStep(0, 0, s);
  ctx.c.nontrivial++;
}

// Save, inputs and Restore before each input of a long stroke; many Restores.
void Endurance(uint64_t i, Ctx& ctx, int len) {
  Pick pick(i);
  int cfg = pick(O().NumParams()), kind = pick(kBranches), times = pick(2) ? 6 : 1;
  int shape = pick(kNumShapes);
  Stroke st = Dense(MakeStroke(shape, shape % kNumTimings, shape % kNumStylus, len), pick(2) ? 10 : 1);
  Sim s(O(), ctx);
  s.Reset(cfg);
  for (int j = 0; j < len && s.ok(); ++j) {
    s.Update(st[j]);
    if (j % 3 == 0) s.Save();
    BranchStep(kind, j % 4, s);
    for (int k = 0; k < times && s.ok(); ++k) s.Restore();
    if (j % 3 && j + 1 < len)  // redo what the Restore undid
      for (int k = j - j % 3 + 1; k <= j && s.ok(); ++k) s.Update(st[k]);
  }
  s.Restore();
  s.Predict();
  ctx.c.nontrivial++;
}

// ---- Save and Restore under many different parameters.
Oracle& VO() {
  static Oracle* o = [] {
    std::vector<StrokeModelParams> v;
    for (auto& c : Variants()) v.push_back(c.p);
    return new Oracle(v);
  }();
  return *o;
}
void Params(uint64_t i, Ctx& ctx, int len, int places) {
  Pick pick(i);
  int cfg = pick(VO().NumParams()), kind = pick(kBranches), at = pick(places), shape = pick(kNumShapes), two = pick(2);
  at = at * (len - 2) / std::max(1, places - 1);
  Stroke st = MakeStroke(shape, (shape + kind) % kNumTimings, (shape + at) % kNumStylus, len);
  Sim s(VO(), ctx);
  s.Reset(cfg);
  int j = 0;
  for (; j <= at; ++j) s.Update(st[j]);
  s.Save();
  for (int r = 0; r < 2 && s.ok(); ++r) {
    for (int k = 0; k < (two ? 9 : 1); ++k) BranchStep(r ? (kind + 4) % kBranches : kind, k, s);
    s.Restore();
    s.Predict();
  }
  Finish(s, st, j, 3);
  s.Restore();
  Finish(s, st, j, 2);
  for (Input in : MakeStroke((shape + 1) % kNumShapes, shape % kNumTimings, shape % kNumStylus, 5)) {
    in.time = in.time + Duration(40);
    s.Update(in);
    if (in.event_type == ET::kMove) s.Predict();
  }
  if (s.restored()) ctx.c.nontrivial++;
}

std::vector<Space> Make(bool thorough) {
  SetRule("a case is a call sequence decoded from its index; non-trivial: a Restore took effect (or, in the last space, had to be ignored), and the calls after it were compared with a modeler that was only given the inputs that count");
  std::vector<Space> v;
  uint64_t np = O().NumParams();
  int depth = thorough ? 7 : 5;
  v.push_back({"sequences", "all sequences of " + std::to_string(depth) + " of 11 calls after a Down, in 6 configurations", np * Pow(kSeqOps, depth),
               [=](uint64_t i, Ctx& c) { Seq(i, c, depth); }});
  int sd = thorough ? 9 : 7;
  v.push_back({"same-input", "all sequences of " + std::to_string(sd) + " of 5 calls (Save, Restore, two Moves within one timestamp, a later Move to the place of the first)", np * Pow(5, sd),
               [=](uint64_t i, Ctx& c) { SameInput(i, c, sd); }});
  int len = thorough ? 40 : 26;
  uint64_t strokes = thorough ? kNumShapes * kNumTimings : kNumShapes * 2;
  v.push_back({"long", "Save at each of " + std::to_string(len) + " positions, 15 kinds x 4 lengths of inputs in between, restored once or twice, of " + std::to_string(strokes) + " strokes in 6 configurations",
               np * len * kBranches * 4 * 2 * strokes, [=](uint64_t i, Ctx& c) { Long(i, c, len); }});
  int len2 = thorough ? 14 : 6;
  v.push_back({"two-saves", "two Saves at all pairs of positions up to " + std::to_string(len2), np * len2 * len2 * kBranches * 4 * kNumShapes * (thorough ? kNumTimings : 2),
               [=](uint64_t i, Ctx& c) { TwoSaves(i, c, len2); }});
  v.push_back({"stale-saves", "a Save in one stroke, Restore at every position of the next one", np * np * 9 * 5 * 7 * 8 * kNumShapes * (thorough ? kNumTimings : 1),
               [=](uint64_t i, Ctx& c) { Stale(i, c); }});
  int pl = thorough ? 12 : 4;
  v.push_back({"parameters", "Save at " + std::to_string(pl) + " positions of 8 strokes, 15 kinds x 2 lengths of inputs in between, two Restores, the rest, a third, the rest, another stroke; " + VX_VARIANTS_TEXT(VO().NumParams()),
               (uint64_t)VO().NumParams() * kBranches * pl * kNumShapes * 2, [=](uint64_t i, Ctx& c) { Params(i, c, 14, pl); }});
  int en = thorough ? 240 : 120;
  v.push_back({"endurance", "Save, inputs of 15 kinds and 1 or 6 Restores after each of " + std::to_string(en) + " inputs of 8 strokes at 2 densities (windows with many inputs), 6 configurations",
               np * kBranches * 4 * kNumShapes, [=](uint64_t i, Ctx& c) { Endurance(i, c, en); }});
  return v;
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, "C03", Make); }
