// Exhaustive enumeration of finite spaces of executions of the real library.
//
// A check is a list of spaces. A space has a known number of cases; case i is
// decoded from i (mixed radix), so that a case is replayed from (space, i)
// alone. All cases of all spaces are run, by forked workers that take chunks of
// consecutive cases. A case that fails (or crashes, or hangs) is run again in a
// new process before it is reported; if it does not fail alone, the whole
// sequence of cases that its worker had run is replayed (hidden process-wide
// state), and only what fails again is reported.
#ifndef VERIF_EXPLORE_H_
#define VERIF_EXPLORE_H_

#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace vx {

struct Counters {
  uint64_t cases = 0;        // executions explored
  uint64_t transitions = 0;  // operations executed and compared
  uint64_t compared = 0;     // individual outputs compared with the oracle
  uint64_t nontrivial = 0;   // cases that exercised the property (see rule)
  uint64_t ambiguous = 0;    // cases with a decision within rounding of its threshold
  uint64_t skipped = 0;      // comparisons given up because of such a decision
  uint64_t model_states = 0; // (filled in by the parent) distinct model states
};

// The CPU time limit of the case starts anew; for long cases, after a part of it.
void Alive();

class Ctx {
 public:
  bool verbose = false;  // replaying: write down what happens
  bool failed = false;
  std::string message;
  std::string log;
  Counters c;
  std::unordered_set<uint64_t> states;
  bool track_states = true;

  void State(uint64_t h) {
    if (track_states && states.size() < 4000000) states.insert(h);
  }
  void Log(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    Append(log, fmt, ap);
    va_end(ap);
    log += '\n';
    if (log.size() > (4 << 20)) log.replace(0, 2 << 20, "(the beginning is left out)\n");
  }
  void Fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (failed) return;
    failed = true;
    va_list ap;
    va_start(ap, fmt);
    Append(message, fmt, ap);
    va_end(ap);
    if (verbose) log += "FAIL: " + message + "\n";
  }

 private:
  static void Append(std::string& s, const char* fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    s += buf;
  }
};

struct Space {
  std::string name;
  std::string bound;  // what is enumerated, in words
  uint64_t n = 0;
  std::function<void(uint64_t, Ctx&)> run;
};

// Decodes a mixed-radix case index.
class Pick {
 public:
  explicit Pick(uint64_t i) : i_(i) {}
  uint64_t operator()(uint64_t n) {
    uint64_t r = i_ % n;
    i_ /= n;
    return r;
  }
  uint64_t rest() const { return i_; }

 private:
  uint64_t i_;
};

inline uint64_t Pow(uint64_t b, int e) {
  uint64_t r = 1;
  while (e-- > 0) r *= b;
  return r;
}

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

// Runs everything. Returns the exit status of the check.
int Main(int argc, char** argv, const std::string& property,
         const std::function<std::vector<Space>(bool thorough)>& make);

// Called by a check (outside of any space) to describe its evidence.
void SetRule(const std::string& rule);
void AddAssumption(const std::string& text);

}  // namespace vx

#endif  // VERIF_EXPLORE_H_
