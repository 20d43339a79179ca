#include "explore.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>

namespace vx {
namespace {

constexpr int kMaxWorkers = 16;
constexpr int kMaxSpaces = 128;
constexpr int kMsg = 3000;
constexpr int kCpuSecondsPerCase = 20;

struct Slot {
  uint64_t space, index;
  int busy;
  int failed;
  char message[kMsg];
  uint64_t n_chunks;  // chunks taken so far (for the replay of a whole worker)
  Counters c[kMaxSpaces];
};
struct Chunk {
  uint32_t space;
  uint64_t begin, end;
};
struct Shared {
  std::atomic<uint64_t> next_chunk;
  std::atomic<int> stop;
  Slot slot[kMaxWorkers];
};

std::string g_rule;
std::vector<std::string> g_assumptions;

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o;
}

void ArmTimer(int seconds) {
  // CPU time of this process, so that a loaded machine does not look like a hang.
  itimerval tv{};
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// Runs one list of (space, begin, end) in a new process; true if it fails (or
// crashes). Only the last case is verbose.
bool Replay(const std::vector<Space>& spaces, const std::vector<Chunk>& chunks,
            std::string* message, std::string* log) {
  char path[] = "/tmp/vxreplayXXXXXX";
  int fd = mkstemp(path);
  pid_t pid = fork();
  if (pid == 0) {
    Ctx ctx;
    for (size_t k = 0; k < chunks.size(); ++k) {
      for (uint64_t i = chunks[k].begin; i < chunks[k].end; ++i) {
        bool last = k + 1 == chunks.size() && i + 1 == chunks[k].end;
        ctx.verbose = last;
        ctx.track_states = false;
        ArmTimer(kCpuSecondsPerCase);
        spaces[chunks[k].space].run(i, ctx);
        if (ctx.failed) goto done;
      }
    }
  done:
    ArmTimer(0);
    std::string out = ctx.failed ? "F" : "P";
    out += ctx.message + '\0' + ctx.log;
    size_t off = 0;
    while (off < out.size()) {
      ssize_t w = write(fd, out.data() + off, out.size() - off);
      if (w <= 0) break;
      off += w;
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::string content;
  {
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    content = ss.str();
  }
  close(fd);
  unlink(path);
  if (!WIFEXITED(st) || content.empty()) {
    if (WIFSIGNALED(st)) {
      *message = WTERMSIG(st) == SIGPROF
                     ? "the call does not return (CPU time limit of the case)"
                     : std::string("the process was killed by signal ") +
                           strsignal(WTERMSIG(st));
    } else {
      *message = "the process exited with status " +
                 std::to_string(WEXITSTATUS(st)) +
                 " (sanitizer report on stderr)";
    }
    return true;
  }
  size_t z = content.find('\0');
  *message = content.substr(1, z - 1);
  *log = content.substr(z + 1);
  return content[0] == 'F';
}

}  // namespace

void Alive() { ArmTimer(kCpuSecondsPerCase); }
void SetRule(const std::string& rule) { g_rule = rule; }
void AddAssumption(const std::string& text) { g_assumptions.push_back(text); }

int Main(int argc, char** argv, const std::string& property,
         const std::function<std::vector<Space>(bool)>& make) {
  bool thorough = false;
  std::string stats_path, replay_path, only, replay_space;
  int workers = 8;
  uint64_t replay_index = 0;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough") thorough = true;
    else if (a == "--stats") stats_path = next();
    else if (a == "--replay-out") replay_path = next();
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--only") only = next();
    else if (a == "--list") list = true;
    else if (a == "--replay") {
      replay_space = next();
      replay_index = strtoull(next().c_str(), nullptr, 10);
    }
  }
  workers = std::min(workers, kMaxWorkers);
  std::vector<Space> spaces = make(thorough);
  if (spaces.size() > kMaxSpaces) {
    fprintf(stderr, "too many spaces\n");
    return 2;
  }
  if (list) {
    for (auto& s : spaces)
      printf("%-40s %12llu  %s\n", s.name.c_str(), (unsigned long long)s.n,
             s.bound.c_str());
    return 0;
  }
  if (!replay_space.empty()) {
    for (size_t k = 0; k < spaces.size(); ++k) {
      if (spaces[k].name != replay_space) continue;
      std::string msg, log;
      bool f = Replay(spaces, {{(uint32_t)k, replay_index, replay_index + 1}},
                      &msg, &log);
      printf("%s%s\n%s\n", log.c_str(), f ? "FAILED" : "passed", msg.c_str());
      return f ? 1 : 0;
    }
    fprintf(stderr, "no such space\n");
    return 2;
  }
  auto t0 = std::chrono::steady_clock::now();

  std::vector<Chunk> chunks;
  for (size_t k = 0; k < spaces.size(); ++k) {
    if (!only.empty() && spaces[k].name.find(only) == std::string::npos)
      continue;
    uint64_t size = std::max<uint64_t>(1, std::min<uint64_t>(2048, spaces[k].n / 512));
    for (uint64_t b = 0; b < spaces[k].n; b += size)
      chunks.push_back({(uint32_t)k, b, std::min(spaces[k].n, b + size)});
  }
  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto* order = static_cast<uint32_t*>(
      mmap(nullptr, sizeof(uint32_t) * chunks.size() * workers + 4096,
           PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  new (sh) Shared();
  char dir[] = "/tmp/vxstatesXXXXXX";
  if (!mkdtemp(dir)) return 2;

  fflush(stdout);
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; ++w) {
    pid_t pid = fork();
    if (pid != 0) {
      pids.push_back(pid);
      continue;
    }
    Slot& slot = sh->slot[w];
    Ctx ctx;
    while (!sh->stop.load()) {
      uint64_t ci = sh->next_chunk.fetch_add(1);
      if (ci >= chunks.size()) break;
      order[chunks.size() * w + slot.n_chunks++] = ci;
      const Chunk& ch = chunks[ci];
      slot.space = ch.space;
      ctx.c = Counters();
      for (uint64_t i = ch.begin; i < ch.end; ++i) {
        slot.index = i;
        slot.busy = 1;
        ArmTimer(kCpuSecondsPerCase);
        ctx.c.cases++;
        spaces[ch.space].run(i, ctx);
        slot.busy = 0;
        if (ctx.failed) {
          snprintf(slot.message, kMsg, "%s", ctx.message.c_str());
          slot.failed = 1;
          sh->stop.store(1);
          break;
        }
      }
      Counters& t = slot.c[ch.space];
      t.cases += ctx.c.cases;
      t.transitions += ctx.c.transitions;
      t.compared += ctx.c.compared;
      t.nontrivial += ctx.c.nontrivial;
      t.ambiguous += ctx.c.ambiguous;
      t.skipped += ctx.c.skipped;
      if (ctx.failed) break;
    }
    ArmTimer(0);
    std::string p = std::string(dir) + "/" + std::to_string(w);
    std::vector<uint64_t> v(ctx.states.begin(), ctx.states.end());
    FILE* f = fopen(p.c_str(), "wb");
    if (f) {
      fwrite(v.data(), 8, v.size(), f);
      fclose(f);
    }
    _exit(0);
  }
  std::vector<int> status(workers, 0);
  for (int n = 0; n < workers; ++n) {
    int st;
    pid_t p = wait(&st);
    for (int w = 0; w < workers; ++w)
      if (pids[w] == p) status[w] = st;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) sh->stop.store(1);
  }
  std::vector<uint64_t> states;
  for (int w = 0; w < workers; ++w) {
    std::string p = std::string(dir) + "/" + std::to_string(w);
    if (FILE* f = fopen(p.c_str(), "rb")) {
      uint64_t buf[4096];
      size_t n;
      while ((n = fread(buf, 8, 4096, f)) > 0)
        states.insert(states.end(), buf, buf + n);
      fclose(f);
      unlink(p.c_str());
    }
  }
  rmdir(dir);
  std::sort(states.begin(), states.end());
  states.erase(std::unique(states.begin(), states.end()), states.end());

  // Failures.
  int violations = 0, unexplained = 0;
  std::string first_message;
  for (int w = 0; w < workers; ++w) {
    Slot& slot = sh->slot[w];
    bool crashed = !WIFEXITED(status[w]) || WEXITSTATUS(status[w]) != 0;
    if (!slot.failed && !(crashed && slot.busy)) {
      if (crashed) {
        fprintf(stderr, "worker %d ended abnormally between cases\n", w);
        ++unexplained;
      }
      continue;
    }
    if (violations) continue;
    uint32_t sp = slot.space;
    std::string msg, log;
    std::string how = "alone";
    bool again = Replay(spaces, {{sp, slot.index, slot.index + 1}}, &msg, &log);
    if (!again) {
      how = "after the other cases of its worker";
      std::vector<Chunk> seq;
      for (uint64_t k = 0; k < slot.n_chunks; ++k)
        seq.push_back(chunks[order[chunks.size() * w + k]]);
      seq.back().end = slot.index + 1;
      again = Replay(spaces, seq, &msg, &log);
    }
    if (!again && !slot.failed) {
      // A crash that does not happen again (out of memory, say).
      fprintf(stderr, "a crash did not happen again when replayed: %s/%llu\n",
              spaces[sp].name.c_str(), (unsigned long long)slot.index);
      ++unexplained;
      continue;
    }
    if (!again) {
      // The harness is deterministic, so the library is not: it gave a wrong
      // output once, and a right one for the same calls.
      how = "NO - the same calls gave different outputs";
      msg = std::string(slot.message) + " (not deterministic)";
    }
    ++violations;
    first_message = msg;
    std::string body = "property: " + property + "\nspace: " + spaces[sp].name +
                       "\nbound: " + spaces[sp].bound +
                       "\ncase: " + std::to_string(slot.index) +
                       "\ntier: " + (thorough ? "thorough" : "quick") +
                       "\nreproduced: " + how + "\n\n" + log +
                       "\nRESULT: " + msg + "\n";
    if (!replay_path.empty()) {
      std::ofstream f(replay_path);
      f << body;
    } else {
      printf("%s", body.c_str());
    }
    printf("FAILURE %s case %llu: %s\n", spaces[sp].name.c_str(),
           (unsigned long long)slot.index, msg.c_str());
  }

  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  // Statistics, and a written-out sample of each space.
  Counters tot;
  std::string per_space, samples;
  bool complete = violations == 0 && unexplained == 0 && only.empty();
  for (size_t k = 0; k < spaces.size(); ++k) {
    Counters c;
    for (int w = 0; w < workers; ++w) {
      const Counters& x = sh->slot[w].c[k];
      c.cases += x.cases;
      c.transitions += x.transitions;
      c.compared += x.compared;
      c.nontrivial += x.nontrivial;
      c.ambiguous += x.ambiguous;
      c.skipped += x.skipped;
    }
    if (c.cases != spaces[k].n) complete = false;
    tot.cases += c.cases;
    tot.transitions += c.transitions;
    tot.compared += c.compared;
    tot.nontrivial += c.nontrivial;
    tot.ambiguous += c.ambiguous;
    tot.skipped += c.skipped;
    char b[512];
    snprintf(b, sizeof b,
             "%s{\"name\":\"%s\",\"cases\":%llu,\"of\":%llu,\"transitions\":%llu,"
             "\"outputs_compared\":%llu,\"nontrivial\":%llu,\"ambiguous\":%llu,"
             "\"skipped\":%llu,\"bound\":",
             k ? "," : "", JsonEscape(spaces[k].name).c_str(),
             (unsigned long long)c.cases, (unsigned long long)spaces[k].n,
             (unsigned long long)c.transitions, (unsigned long long)c.compared,
             (unsigned long long)c.nontrivial, (unsigned long long)c.ambiguous,
             (unsigned long long)c.skipped);
    per_space += b;
    per_space += "\"" + JsonEscape(spaces[k].bound) + "\"}";
    if (only.empty() && violations == 0 && k < 4) {
      std::string msg, log;
      uint64_t idx = spaces[k].n / 2;
      Replay(spaces, {{(uint32_t)k, idx, idx + 1}}, &msg, &log);
      if (log.size() > 1500) log = log.substr(0, 1500) + "...";
      samples += std::string(samples.empty() ? "" : ",") + "{\"space\":\"" +
                 JsonEscape(spaces[k].name) + "\",\"case\":" + std::to_string(idx) +
                 ",\"trace\":\"" + JsonEscape(log) + "\"}";
    }
    printf("%-34s %10llu/%llu cases %12llu transitions %12llu compared %10llu nontrivial %8llu ambiguous %6llu skipped\n",
           spaces[k].name.c_str(), (unsigned long long)c.cases,
           (unsigned long long)spaces[k].n, (unsigned long long)c.transitions,
           (unsigned long long)c.compared, (unsigned long long)c.nontrivial,
           (unsigned long long)c.ambiguous, (unsigned long long)c.skipped);
  }
  printf("%zu distinct model states, %.1f s\n", states.size(), wall);
  if (!stats_path.empty()) {
    std::ofstream f(stats_path);
    f << "{\"states\":" << states.size() << ",\"transitions\":" << tot.transitions
      << ",\"traces_validated_against_impl\":" << tot.cases
      << ",\"outputs_compared\":" << tot.compared
      << ",\"nontrivial_traces\":" << tot.nontrivial
      << ",\"ambiguous_traces\":" << tot.ambiguous
      << ",\"skipped_comparisons\":" << tot.skipped
      << ",\"exhaustive\":" << (complete ? "true" : "false") << ",\"rule\":\""
      << JsonEscape(g_rule) << "\",\"spaces\":[" << per_space
      << "],\"samples\":[" << samples << "],\"assumptions\":[";
    for (size_t i = 0; i < g_assumptions.size(); ++i)
      f << (i ? "," : "") << "\"" << JsonEscape(g_assumptions[i]) << "\"";
    f << "],\"violations\":" << violations << ",\"message\":\""
      << JsonEscape(first_message) << "\"}\n";
  }
  if (violations) return 1;
  if (unexplained) return 3;
  return complete || !only.empty() ? 0 : 3;
}

}  // namespace vx
