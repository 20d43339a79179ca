// Scripts of calls on one modeler, what they give in a process of their own, and
// parameter sets that differ in a single parameter.
#ifndef VERIF_SCRIPT_H_
#define VERIF_SCRIPT_H_

#include <sys/wait.h>
#include <unistd.h>

#include "fields.h"

namespace vx {

struct Call {
  int kind;  // 0 Reset(param), 1 Update, 2 Predict, 3 Save, 4 Restore, 5 Reset()
  int param = 0;
  Input in;
};
using Script = std::vector<Call>;

inline uint64_t DoCall(StrokeModeler& m, const Call& c, const std::vector<Config>& cfgs) {
  Results v;
  switch (c.kind) {
    case 0: return Mix(1, (uint64_t)ResetCopied(m, cfgs[c.param].p).code());
    case 1: {
      absl::Status s = UpdateCopied(m, c.in, v);
      return Mix(HashResults(v), (uint64_t)s.code());
    }
    case 2: {
      absl::Status s = m.Predict(v);
      return Mix(HashResults(v), (uint64_t)s.code());
    }
    case 3: m.Save(); return 3;
    case 4: m.Restore(); return 4;
    default: return Mix(5, (uint64_t)m.Reset().code());
  }
}
inline std::string Str(const Call& c) {
  switch (c.kind) {
    case 0: return "Reset(params " + std::to_string(c.param) + ")";
    case 1: return "Update(" + Str(c.in) + ")";
    case 2: return "Predict()";
    case 3: return "Save()";
    case 4: return "Restore()";
    default: return "Reset()";
  }
}

// What a script gives alone, in a process of its own.
inline std::vector<uint64_t> Alone(const Script& s, const std::vector<Config>& cfgs) {
  std::vector<uint64_t> r(s.size());
  int fd[2];
  if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    StrokeModeler m;
    for (size_t i = 0; i < s.size(); ++i) r[i] = DoCall(m, s[i], cfgs);
    ssize_t w = write(fd[1], r.data(), r.size() * 8);
    _exit(w == (ssize_t)(r.size() * 8) ? 0 : 1);
  }
  close(fd[1]);
  size_t got = 0;
  while (got < r.size() * 8) {
    ssize_t n = read(fd[0], (char*)r.data() + got, r.size() * 8 - got);
    if (n <= 0) break;
    got += n;
  }
  int st;
  waitpid(pid, &st, 0);
  close(fd[0]);
  if (got < r.size() * 8) r.assign(s.size(), 0xdead);  // crashed: nothing will compare equal
  return r;
}

// Parameter sets that differ from a base (all stages on; plain) in one parameter.
// The first is the base itself. (Base 2: all combinations of stages.)
inline std::vector<Config> OneFieldVariants(int base) {
  if (base == 2) return AllStages();
  StrokeModelParams b = BaseParams();
  if (base == 0) {
    EnableLoopMitigation(b);
    b.prediction_params = BaseKalman();
    b.sampling_params.max_estimated_angle_to_traverse_per_input = .3;
  }
  std::vector<Config> v = {{"base", b}};
  // The values, in the order of Fields(); all valid, and all make a difference.
  static const double kValues[] = {.021, 3, 25, 5e-4, 55, 5, 30, .6, .5, .011, 14, 140, .02, 7, 7, .7,
                                   4, 12, .021, .004, .2, 7, 9, 40, .8, .4, .05, 10, 1.1, .9, 20, .4, .8};
  static_assert(sizeof kValues / sizeof *kValues == 33);
  const auto& f = Fields();
  for (size_t i = 0; i < f.size(); ++i) {
    if (base == 1 && (f[i].group == 'k' || f[i].group == 'l' || std::string(f[i].name).find("stylus") != std::string::npos) &&
        std::string(f[i].name).find("max_input_samples") == std::string::npos)
      continue;
    Config c{f[i].name, b};
    f[i].set(c.p, kValues[i]);
    v.push_back(c);
  }
  Config c{"no smoothing", b};
  c.p.wobble_smoother_params.is_enabled = false;
  v.push_back(c);
  c = {"stroke-end prediction", b};
  if (base == 1) c = {"Kalman prediction", b}, c.p.prediction_params = BaseKalman();
  else c.p.prediction_params = sm::StrokeEndPredictorParams{};
  v.push_back(c);
  c = {"no prediction", b};
  c.p.prediction_params = sm::DisabledPredictorParams{};
  v.push_back(c);
  if (base == 0) {
    c = {"no loop mitigation", b};
    c.p.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
    v.push_back(c);
  } else {
    c = {"normal projection", b};
    c.p.stylus_state_modeler_params.use_stroke_normal_projection = true;
    c.p.stylus_state_modeler_params.min_input_samples = 5;
    c.p.stylus_state_modeler_params.min_sample_duration = Duration(.05);
    v.push_back(c);
    c = {"loop mitigation", b};
    EnableLoopMitigation(c.p);
    v.push_back(c);
  }
  return v;
}

// A stroke with predictions, as a script.
inline Script StrokeScript(int param, int shape, int timing, int len) {
  Script s;
  s.push_back({0, param});
  Stroke st = MakeStroke(shape, timing, (shape + timing) % 3 ? kAllKnown : kWrapOrient, len);
  for (int j = 0; j < len; ++j) {
    s.push_back({1, 0, st[j]});
    if (j % 3 == 2 || j == 11) s.push_back({2});
  }
  return s;
}

}  // namespace vx

#endif  // VERIF_SCRIPT_H_
