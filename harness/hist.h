// The history model: what the modeler does depends only on the parameters and
// on the "effective" input stream, i.e. the inputs accepted since the Down of
// the stroke in progress, rewound by Restore. The model keeps just that stream
// (as a node of a tree of streams); the expected outputs of a node are those of
// a new modeler that is given the parameters and that stream and nothing else.
// Sim runs the real modeler and the model side by side and compares every
// status and every output exactly.
#ifndef VERIF_HIST_H_
#define VERIF_HIST_H_

#include <map>
#include <memory>
#include <unordered_map>

#include "common.h"

namespace vx {

struct Expected {
  int code = 0;
  uint64_t hash = 0;
  int n = 0;
  int pcode = 0;
  uint64_t phash = 0;
  int pn = 0;
};

class Oracle {
 public:
  explicit Oracle(std::vector<StrokeModelParams> params)
      : params_(std::move(params)) {
    Clear();
  }
  struct Node {
    int parent = -1;
    int param = 0;
    int depth = 0;
    Input in;
    Expected e;
    int ended_or_rejected = 0;  // 1: rejected, 2: ends the stroke
    uint64_t path = 0;
    std::unordered_map<uint64_t, int> kids;
  };
  const StrokeModelParams& Params(int i) const { return params_[i]; }
  int NumParams() const { return (int)params_.size(); }
  int Root(int param) const { return param; }
  Node& At(int i) { return nodes_[i]; }

  // The node reached by `in` from `node`.
  int Step(int node, const Input& in) {
    uint64_t h = HashInput(7, in);
    auto it = nodes_[node].kids.find(h);
    if (it != nodes_[node].kids.end()) return it->second;
    Node n;
    n.parent = node;
    n.param = nodes_[node].param;
    n.depth = nodes_[node].depth + 1;
    n.in = in;
    n.path = Mix(nodes_[node].path, h);
    Results out, pred;
    absl::Status s, ps;
    Run(n.param, Path(node), &in, out, s, pred, ps);
    n.e.code = (int)s.code();
    n.e.hash = HashResults(out);
    n.e.n = (int)out.size();
    n.e.pcode = (int)ps.code();
    n.e.phash = HashResults(pred);
    n.e.pn = (int)pred.size();
    n.ended_or_rejected = !s.ok() ? 1 : in.event_type == ET::kUp ? 2 : 0;
    int id = (int)nodes_.size();
    nodes_.push_back(std::move(n));
    nodes_[node].kids[h] = id;
    return id;
  }
  // Recomputes the expected outputs (for messages).
  void Details(int param, int node, const Input* in, Results& out, Results& pred) {
    absl::Status s, ps;
    Run(param, Path(node), in, out, s, pred, ps);
  }
  void MaybeClear() {
    if (nodes_.size() > 400000) Clear();
  }

 private:
  void Clear() {
    nodes_.clear();
    for (size_t i = 0; i < params_.size(); ++i) {
      Node n;
      n.param = (int)i;
      n.path = Mix(99, i);
      Results out, pred;
      absl::Status s, ps;
      Run((int)i, {}, nullptr, out, s, pred, ps);
      n.e.pcode = (int)ps.code();
      n.e.phash = HashResults(pred);
      nodes_.push_back(n);
    }
  }
  Stroke Path(int node) {
    Stroke s;
    while (node >= 0 && nodes_[node].parent >= 0) {
      s.push_back(nodes_[node].in);
      node = nodes_[node].parent;
    }
    return Stroke(s.rbegin(), s.rend());
  }
  void Run(int param, const Stroke& path, const Input* in, Results& out,
           absl::Status& s, Results& pred, absl::Status& ps) {
    StrokeModeler m;
    (void)m.Reset(params_[param]);
    for (const Input& i : path) {
      Results r;
      (void)m.Update(i, r);
    }
    if (in) s = m.Update(*in, out);
    ps = m.Predict(pred);
  }
  std::vector<StrokeModelParams> params_;
  std::vector<Node> nodes_;
};

class Sim {
 public:
  Sim(Oracle& o, Ctx& ctx) : o_(o), ctx_(ctx) { o_.MaybeClear(); }

  bool ok() const { return !ctx_.failed; }
  int param() const { return param_; }
  bool in_stroke() { return node_ >= 0 && o_.At(node_).parent >= 0; }
  const Input& last() { return o_.At(node_).in; }
  int rejected() const { return rejected_; }
  int restored() const { return restored_; }
  StrokeModeler& real() { return m_; }

  void Reset(int param) {
    if (!ok()) return;
    ctx_.Log("Reset(params %d)", param);
    absl::Status s = ResetCopied(m_, o_.Params(param));
    Count();
    if (!s.ok()) return ctx_.Fail("valid parameters rejected: %s", Str(s).c_str());
    param_ = param;
    node_ = o_.Root(param);
    saved_ = false;
    Visit();
  }
  void ResetInvalid(const StrokeModelParams& p, const char* what) {
    if (!ok()) return;
    ctx_.Log("Reset(invalid: %s)", what);
    absl::Status s = m_.Reset(p);
    Count();
    if (s.ok()) return ctx_.Fail("invalid parameters accepted (%s)", what);
    ++rejected_;
    Visit();
  }
  void ResetKeep() {
    if (!ok()) return;
    ctx_.Log("Reset()");
    absl::Status s = m_.Reset();
    Count();
    if (s.ok() != (param_ >= 0))
      return ctx_.Fail("Reset() returned %s", Str(s).c_str());
    if (param_ < 0) {
      ++rejected_;
      return;
    }
    node_ = o_.Root(param_);
    saved_ = false;
    Visit();
  }
  void Save() {
    if (!ok()) return;
    ctx_.Log("Save()");
    m_.Save();
    Count();
    saved_ = true;
    saved_node_ = node_;
    Visit();
  }
  void Restore() {
    if (!ok()) return;
    ctx_.Log("Restore()%s", saved_ ? "" : "   (nothing saved)");
    m_.Restore();
    Count();
    if (saved_) {
      node_ = saved_node_;
      ++restored_;
    }
    Visit();
  }
  // `prefill` results are in the vector before the call.
  void Update(const Input& in, int prefill = 2) {
    if (!ok()) return;
    Results& v = scratch_;
    v.clear();
    for (int i = 0; i < prefill; ++i) v.push_back(Sentinel(i));
    absl::Status s = UpdateCopied(m_, in, v);
    Count();
    ctx_.Log("Update(%s) -> %s, %zu results", Str(in).c_str(), Str(s).c_str(),
             v.size() - std::min<size_t>(prefill, v.size()));
    if ((int)v.size() < prefill)
      return ctx_.Fail("Update removed results that were in the vector");
    for (int i = 0; i < prefill; ++i)
      if (!SameResult(v[i], Sentinel(i)))
        return ctx_.Fail("Update changed a result that was in the vector: %s",
                         Str(v[i]).c_str());
    if (param_ < 0) {
      if (s.ok()) return ctx_.Fail("Update succeeded without parameters");
      if ((int)v.size() != prefill)
        return ctx_.Fail("a rejected Update changed the vector");
      ++rejected_;
      Visit();
      return;
    }
    int next = o_.Step(node_, in);
    Oracle::Node& n = o_.At(next);
    if ((int)s.code() != n.e.code)
      return ctx_.Fail("Update(%s) returned %s, but status %d in a new modeler given the same stroke",
                       Str(in).c_str(), Str(s).c_str(), n.e.code);
    if (!s.ok() && (int)v.size() != prefill)
      return ctx_.Fail("a rejected Update changed the vector");
    ctx_.c.compared += v.size() - prefill;
    if ((int)v.size() - prefill != n.e.n || HashResults(v, prefill) != n.e.hash)
      return Mismatch("Update", next, v, prefill);
    if (n.ended_or_rejected == 1) {
      ++rejected_;
    } else {
      if (in.event_type == ET::kDown) saved_ = false;
      node_ = n.ended_or_rejected == 2 ? o_.Root(param_) : next;
    }
    Visit();
  }
  void Predict(int prefill = 2) {
    if (!ok()) return;
    Results& v = scratch_;
    v.clear();
    for (int i = 0; i < prefill; ++i) v.push_back(Sentinel(i));
    absl::Status s = m_.Predict(v);
    Count();
    ctx_.Log("Predict() -> %s, %zu results", Str(s).c_str(), v.size());
    if (!s.ok() && !v.empty())
      return ctx_.Fail("a rejected Predict left %zu results in the vector", v.size());
    if (param_ < 0) {
      if (s.ok()) ctx_.Fail("Predict succeeded without parameters");
      ++rejected_;
      return;
    }
    Oracle::Node& n = o_.At(node_);
    if ((int)s.code() != n.e.pcode)
      return ctx_.Fail("Predict returned %s, but status %d in a new modeler given the same stroke",
                       Str(s).c_str(), n.e.pcode);
    ctx_.c.compared += v.size();
    if (s.ok() && HashResults(v) != n.e.phash) {
      Results out, pred;
      o_.Details(param_, node_, nullptr, out, pred);
      return Diff("prediction", v, 0, pred);
    }
    if (!s.ok()) ++rejected_;
    Visit();
  }
  // A probe of everything observable: a prediction, and (on request) the end of
  // the stroke.
  void Visit() {
    uint64_t h = Mix(param_ + 1, node_ < 0 ? 0 : o_.At(node_).path);
    h = Mix(h, !saved_ ? 1 : saved_node_ < 0 ? 2 : o_.At(saved_node_).path);
    ctx_.State(h);
  }

 private:
  void Count() { ctx_.c.transitions++; }
  void Mismatch(const char* what, int node, const Results& v, int from) {
    Oracle::Node& n = o_.At(node);
    Results out, pred;
    Input in = n.in;
    o_.Details(param_, n.parent, &in, out, pred);
    Diff(what, v, from, out);
  }
  void Diff(const char* what, const Results& v, int from, const Results& want) {
    if (v.size() - from != want.size())
      return ctx_.Fail("%s: %zu results, but %zu from a new modeler given the same stroke",
                       what, v.size() - from, want.size());
    for (size_t i = 0; i < want.size(); ++i)
      if (!SameResult(v[from + i], want[i]))
        return ctx_.Fail("%s: result %zu is %s, but %s from a new modeler given the same stroke",
                         what, i, Str(v[from + i]).c_str(), Str(want[i]).c_str());
    ctx_.Fail("%s: results differ", what);
  }

  Oracle& o_;
  Ctx& ctx_;
  StrokeModeler m_;
  int param_ = -1;
  int node_ = -1;
  bool saved_ = false;
  int saved_node_ = -1;
  int rejected_ = 0;
  int restored_ = 0;
  Results scratch_;
};

}  // namespace vx

#endif  // VERIF_HIST_H_
