// A small stateless model checker for sequential library code.
//
// A scenario's body is run again and again; every source of nondeterminism in
// it is an explicit choice, ctx.pick(n).  The explorer backtracks over the
// recorded choices (depth first, simplest alternative first) until every
// choice sequence has been executed, so a completed run has enumerated the
// whole bounded space.  The work is divided over processes; each execution
// runs the real code of /repo, so aborts, signals and hangs of that code are
// caught by the supervising parent, reproduced from the recorded choices, and
// reported like any other violation.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

inline uint64_t Hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  h ^= h >> 29;
  return h ? h : 1;
}
inline uint64_t Hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return Hash(s.data(), s.size(), h); }

struct Violation {
  std::string key, msg;
};
struct Prune {};

constexpr int kMaxChoices = 4096;
constexpr size_t kTable = size_t{1} << 22;

struct Table {  // lock-free insert-only set of 64-bit hashes
  std::atomic<uint64_t> count;
  std::atomic<uint64_t> overflow;
  std::atomic<uint64_t> slot[kTable];
  bool insert(uint64_t h) {
    if (!h) h = 1;
    if (count.load(std::memory_order_relaxed) > kTable * 3 / 4) {
      overflow.fetch_add(1);
      return true;
    }
    for (size_t i = (h * 0x9E3779B97F4A7C15ull) >> 42;; i = (i + 1) & (kTable - 1)) {
      uint64_t cur = slot[i & (kTable - 1)].load(std::memory_order_relaxed);
      if (cur == h) return false;
      if (cur == 0) {
        uint64_t z = 0;
        if (slot[i & (kTable - 1)].compare_exchange_strong(z, h)) {
          count.fetch_add(1);
          return true;
        }
        if (z == h) return false;
      }
    }
  }
};

constexpr int kPast = 8;
struct WorkerShm {
  std::atomic<uint64_t> beat;       // executions started
  std::atomic<uint64_t> executions; // executions finished
  std::atomic<uint64_t> transitions;
  std::atomic<uint64_t> pruned;
  std::atomic<int> done;
  int nchoices;
  uint16_t choices[kMaxChoices];
  uint16_t limits[kMaxChoices];
  char label[4096];
  std::atomic<uint64_t> fails;
  // The executions before the current one in the same process, newest at
  // (past - 1) % kPast: what a result that depends on earlier calls needs.
  uint64_t past;
  int npast[kPast];
  uint16_t pasts[kPast][kMaxChoices];
};

struct Shared {
  Table outcomes, states;
  std::atomic<uint64_t> nontrivial;
  std::atomic<int> stop;  // a violation was found and VERIF_FAILFAST is set
  std::atomic<uint64_t> failed_at;  // when the first failure was seen, in ms
  // A failure stands: what else fails is of less interest than an answer.
  void Failed(double now) {
    uint64_t z = 0;
    failed_at.compare_exchange_strong(z, static_cast<uint64_t>(now * 1000));
    if (getenv("VERIF_FAILFAST")) stop = 1;
  }
  bool Stop(double now) const { return stop || (failed_at && now * 1000 > failed_at + 60000.0); }
};

struct Globals {
  std::string property, tier = "quick", outdir = "/tmp";
  int workers = 8;
  double deadline = 1e18;
  Shared* shared = nullptr;
  bool replaying = false;
};
inline Globals& G() {
  static Globals g;
  return g;
}
inline double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline bool thorough() { return G().tier == "thorough"; }
inline int tier(int quick, int thor) { return thorough() ? thor : quick; }

class Ctx {
 public:
  std::vector<uint16_t> choices, limits;
  size_t pos = 0;
  WorkerShm* shm = nullptr;
  int split_depth = 0, worker = 0, workers = 1;
  size_t forced = 0;  // length of the re-executed prefix
  bool exploring = false;
  std::string label;
  std::vector<std::string> trace;

  // The only source of nondeterminism: an integer in [0, n).
  int pick(int n) {
    if (n <= 0) {
      fprintf(stderr, "mc: pick(%d)\n", n);
      _exit(97);
    }
    if (pos == choices.size()) {
      choices.push_back(0);
      limits.push_back(n);
    } else if (limits[pos] != n) {
      if (limits[pos] == 0 && choices[pos] < n) {  // replaying from a file
        limits[pos] = n;
      } else {
        fprintf(stderr, "mc: nondeterministic scenario: choice %zu had %d alternatives, now %d\n", pos, limits[pos], n);
        _exit(98);
      }
    }
    int c = choices[pos];
    if (shm && pos < kMaxChoices) {
      shm->choices[pos] = c;
      shm->limits[pos] = n;
      shm->nchoices = pos + 1;
    }
    ++pos;
    if (split_depth && static_cast<int>(pos) == split_depth && !Mine()) throw NotMine{};
    return c;
  }
  bool flip() { return pick(2) == 1; }
  template <class T>
  const T& of(const std::vector<T>& v) { return v[pick(static_cast<int>(v.size()))]; }
  template <class T>
  T of(std::initializer_list<T> v) { return *(v.begin() + pick(static_cast<int>(v.size()))); }

  // Human-readable description of this execution (kept for crash reports).
  void say(const std::string& s) {
    label += s;
    label += "\n";
    if (shm) {
      size_t n = std::min(label.size(), sizeof(shm->label) - 1);
      memcpy(shm->label, label.data(), n);
      shm->label[n] = 0;
    }
  }
  void check(bool ok, const std::string& key, const std::string& msg) {
    if (!ok) throw Violation{key, msg};
  }
  void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  template <class A, class B>
  void eq(const A& got, const B& want, const std::string& key, const std::string& what = "") {
    if (!(got == want)) {
      std::ostringstream o;
      o << what << ": got " << got << ", reference model says " << want;
      throw Violation{key, o.str()};
    }
  }
  void outcome(uint64_t h) { G().shared->outcomes.insert(h); }
  void outcome(const std::string& s) { outcome(Hash(s)); }
  // Records a reached (model) state; returns true when it is new.
  bool state(uint64_t h) { return G().shared->states.insert(h); }
  bool state(const std::string& s) { return state(Hash(s)); }
  // Visited-set pruning for state-space search: true when an execution has
  // already reached this state (include the remaining depth in `h`) and its
  // futures are being explored from there.  Re-executed prefixes and replays
  // never count as visits.
  bool seen(uint64_t h) {
    if (!exploring || pos < forced || static_cast<int>(pos) < split_depth) return false;
    return !G().shared->states.insert(h);
  }
  bool seen(const std::string& s) { return seen(Hash(s)); }
  void transition(uint64_t n = 1) {
    if (shm) shm->transitions.fetch_add(n, std::memory_order_relaxed);
  }
  void nontrivial() { G().shared->nontrivial.fetch_add(1, std::memory_order_relaxed); }
  [[noreturn]] void prune() { throw Prune{}; }
  struct NotMine {};
  // Work is divided by the hash of the first split_depth choices.
  bool Mine() const {
    if (workers <= 1) return true;
    size_t n = std::min<size_t>(pos, split_depth);
    uint64_t h = Hash(choices.data(), n * sizeof(choices[0]));
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h % workers == static_cast<uint64_t>(worker);
  }
};

struct Scenario {
  std::string name;
  std::function<void(Ctx&)> body;
  int split_depth = 3;  // how many leading choices define the unit of work
};

inline std::string Slug(const std::string& s) {
  std::string o;
  for (char c : s) o += (isalnum(static_cast<unsigned char>(c)) || c == '-' || c == '_' || c == '.') ? c : '_';
  return o.substr(0, 100);
}
inline std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Found {
  int scenario;
  std::string kind;  // fail | crash | hang
  std::string key, msg, label;
  std::vector<int> choices;
  std::vector<std::vector<int>> past;  // oldest first
  size_t need = 0;                     // how many of them a replay needs
};

class Explorer {
 public:
  explicit Explorer(std::vector<Scenario> s) : scenarios_(std::move(s)) {}

  int Run() {
    G().shared = static_cast<Shared*>(Map(sizeof(Shared)));
    const int W = G().workers;
    shm_ = static_cast<WorkerShm*>(Map(sizeof(WorkerShm) * W));
    double t0 = Now();
    bool complete = true;
    std::string scen_json;
    for (size_t i = 0; i < scenarios_.size(); ++i) {
      uint64_t e0 = Sum(&WorkerShm::executions), tr0 = Sum(&WorkerShm::transitions);
      uint64_t s0 = G().shared->states.count, o0 = G().shared->outcomes.count;
      double st = Now();
      bool c = RunScenario(i);
      complete = complete && c;
      std::ostringstream o;
      o << (scen_json.empty() ? "" : ",") << "{\"name\":\"" << Esc(scenarios_[i].name) << "\",\"executions\":" << Sum(&WorkerShm::executions) - e0
        << ",\"transitions\":" << Sum(&WorkerShm::transitions) - tr0 << ",\"new_states\":" << G().shared->states.count - s0
        << ",\"new_outcomes\":" << G().shared->outcomes.count - o0 << ",\"complete\":" << (c ? "true" : "false") << ",\"wall_s\":" << Now() - st
        << ",\"sample\":\"" << Esc(samples_.count(i) ? samples_[i].substr(0, 600) : "") << "\"}";
      scen_json += o.str();
      fprintf(stdout, "scenario %-34s executions=%llu states+=%llu outcomes+=%llu %s %.1fs\n", scenarios_[i].name.c_str(),
              (unsigned long long)(Sum(&WorkerShm::executions) - e0), (unsigned long long)(G().shared->states.count - s0),
              (unsigned long long)(G().shared->outcomes.count - o0), c ? "complete" : "CAPPED", Now() - st);
      fflush(stdout);
    }
    // Replay before report.
    std::string viol;
    int n = 0;
    for (auto& f : found_) {
      bool again = false;
      for (int k = 0; k < 24 && !again; ++k) again = Reproduce(f, k);
      if (!again && f.kind != "hang" && !f.past.empty()) {
        // What happened may depend on what this process did before.
        for (size_t h : {1, 2, 4, 8}) {
          f.need = std::min(h, f.past.size());
          again = Reproduce(f, 0) && Reproduce(f, 0);
          if (again || f.need < h) break;
        }
        if (again) f.msg += "\n(after " + std::to_string(f.need) + " earlier execution(s) in the same process: the result depends on earlier calls)";
      }
      if (!again) {
        fprintf(stderr, "mc: not reproducible, dropped: %s (%s)\n", f.key.c_str(), f.msg.c_str());
        complete = false;
        continue;
      }
      std::string path = G().outdir + "/" + G().property + "-" + Slug(scenarios_[f.scenario].name) + "-" + std::to_string(n++) + ".replay";
      FILE* fp = fopen(path.c_str(), "w");
      if (fp) {
        fprintf(fp, "scenario %s\ntier %s\n", scenarios_[f.scenario].name.c_str(), G().tier.c_str());
        for (size_t i = f.past.size() - f.need; i < f.past.size(); ++i) {
          fprintf(fp, "before");
          for (int c : f.past[i]) fprintf(fp, " %d", c);
          fprintf(fp, "\n");
        }
        fprintf(fp, "choices");
        for (int c : f.choices) fprintf(fp, " %d", c);
        fprintf(fp, "\nkind %s\nkey %s\n---\n%s\n---\n%s\n", f.kind.c_str(), f.key.c_str(), f.msg.c_str(), f.label.c_str());
        fclose(fp);
      }
      viol += (viol.empty() ? "" : ",") + std::string("{\"key\":\"") + Esc(f.key) + "\",\"kind\":\"" + f.kind + "\",\"msg\":\"" + Esc(f.msg.substr(0, 2000)) +
              "\",\"replay\":\"" + Esc(path) + "\"}";
    }
    std::ostringstream o;
    o << "{\"complete\":" << (complete ? "true" : "false") << ",\"executions\":" << Sum(&WorkerShm::executions) << ",\"transitions\":" << Sum(&WorkerShm::transitions)
      << ",\"pruned\":" << Sum(&WorkerShm::pruned) << ",\"failing_executions\":" << Sum(&WorkerShm::fails) << ",\"states\":" << G().shared->states.count
      << ",\"state_table_overflow\":" << G().shared->states.overflow << ",\"distinct_outcomes\":" << G().shared->outcomes.count
      << ",\"nontrivial\":" << G().shared->nontrivial << ",\"wall_s\":" << Now() - t0 << ",\"scenarios\":[" << scen_json << "],\"violations\":[" << viol << "]}\n";
    FILE* fp = fopen((G().outdir + "/result.json").c_str(), "w");
    if (!fp) return 3;
    fputs(o.str().c_str(), fp);
    fclose(fp);
    return 0;
  }

  int Replay(const std::string& file) {
    G().shared = static_cast<Shared*>(Map(sizeof(Shared)));
    shm_ = static_cast<WorkerShm*>(Map(sizeof(WorkerShm)));
    FILE* fp = fopen(file.c_str(), "r");
    if (!fp) return 3;
    char line[1 << 16];
    Found f;
    f.scenario = -1;
    while (fgets(line, sizeof line, fp)) {
      std::string l(line);
      while (!l.empty() && l.back() == '\n') l.pop_back();
      if (l.rfind("scenario ", 0) == 0)
        for (size_t i = 0; i < scenarios_.size(); ++i)
          if (scenarios_[i].name == l.substr(9)) f.scenario = i;
      if (l.rfind("choices", 0) == 0) {
        std::istringstream is(l.substr(7));
        int c;
        while (is >> c) f.choices.push_back(c);
      }
      if (l.rfind("before", 0) == 0) {
        std::istringstream is(l.substr(6));
        int c;
        f.past.emplace_back();
        while (is >> c) f.past.back().push_back(c);
        f.need = f.past.size();
      }
      if (l == "---") break;
    }
    fclose(fp);
    if (f.scenario < 0) return 3;
    RunPast(f);
    Ctx ctx;
    ctx.shm = &shm_[0];
    ctx.choices.assign(f.choices.begin(), f.choices.end());
    ctx.limits.assign(f.choices.size(), 0);
    try {
      scenarios_[f.scenario].body(ctx);
    } catch (Violation& v) {
      printf("%s\nREPLAY VIOLATION %s\n%s\n", ctx.label.c_str(), v.key.c_str(), v.msg.c_str());
      return 1;
    } catch (Prune&) {
    }
    printf("%s\nREPLAY ok\n", ctx.label.c_str());
    return 0;
  }

 private:
  static void* Map(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      _exit(96);
    }
    return p;
  }
  template <class M>
  uint64_t Sum(M m) {
    uint64_t s = 0;
    for (int i = 0; i < G().workers; ++i) s += (shm_[i].*m).load();
    return s;
  }
  static bool Next(std::vector<uint16_t>& c, std::vector<uint16_t>& l) {
    while (!c.empty()) {
      if (c.back() + 1 < l.back()) {
        ++c.back();
        return true;
      }
      c.pop_back();
      l.pop_back();
    }
    return false;
  }

  // Runs in a worker process.  `c`/`l`: a choice sequence already executed (it
  // crashed the previous worker); exploration continues after it.
  void Work(int si, int w, std::vector<uint16_t> c, std::vector<uint16_t> l, int report_fd) {
    WorkerShm* s = &shm_[w];
    const Scenario& sc = scenarios_[si];
    std::set<std::string> keys;
    if (!c.empty() && !Next(c, l)) {
      s->done = 1;
      return;
    }
    for (;;) {
      Ctx ctx;
      ctx.shm = s;
      ctx.split_depth = sc.split_depth;
      ctx.worker = w;
      ctx.workers = G().workers;
      ctx.choices = c;
      ctx.limits = l;
      ctx.forced = c.size();
      ctx.exploring = true;
      s->nchoices = 0;
      s->label[0] = 0;
      s->beat.fetch_add(1);
      bool counted = true;
      std::string key, msg;
      try {
        sc.body(ctx);
      } catch (Violation& v) {
        key = v.key;
        msg = v.msg;
      } catch (Prune&) {
        s->pruned.fetch_add(1, std::memory_order_relaxed);
      } catch (Ctx::NotMine&) {
        counted = false;
      }
      if (counted && static_cast<int>(ctx.pos) < sc.split_depth && !ctx.Mine()) {
        counted = false;  // another worker's: it reports it
        key.clear();
      }
      if (counted) {
        s->executions.fetch_add(1, std::memory_order_relaxed);
        s->transitions.fetch_add(ctx.pos, std::memory_order_relaxed);
      }
      if (!key.empty()) {
        s->fails.fetch_add(1);
        G().shared->Failed(Now());
        if (keys.size() < 12 && keys.insert(key).second) {
          std::ostringstream o;
          o << "F\x1f" << key << "\x1f" << msg.substr(0, 3000) << "\x1f" << ctx.label.substr(0, 3000) << "\x1f";
          for (size_t i = 0; i < ctx.pos; ++i) o << ctx.choices[i] << " ";
          for (auto& e : Past(*s)) {
            o << "\x1f";
            for (int i : e) o << i << " ";
          }
          o << "\x1e";
          std::string t = o.str();
          (void)!write(report_fd, t.data(), t.size());
        }
      } else if (counted && !sampled_ && !ctx.label.empty() && s->executions > 20) {
        sampled_ = true;
        std::string t = "S\x1f" + ctx.label.substr(0, 600) + "\x1e";
        (void)!write(report_fd, t.data(), t.size());
      }
      if (counted) {
        int& n = s->npast[s->past % kPast];
        n = std::min<size_t>(ctx.pos, kMaxChoices);
        memcpy(s->pasts[s->past % kPast], ctx.choices.data(), n * sizeof(uint16_t));
        ++s->past;
      }
      c = ctx.choices;
      l = ctx.limits;
      c.resize(ctx.pos);
      l.resize(ctx.pos);
      if (!Next(c, l)) break;
      if (double t = Now(); t > G().deadline || G().shared->Stop(t)) {
        s->done = 2;
        return;
      }
    }
    s->done = 1;
  }

  static void Quiet() {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 2);
    dup2(n, 1);
  }

  pid_t Spawn(int si, int w, const std::vector<uint16_t>& skip, const std::vector<uint16_t>& lim, int fd) {
    shm_[w].done = 0;
    shm_[w].past = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (!getenv("MC_VERBOSE")) Quiet();
      rlimit core{0, 0};
      setrlimit(RLIMIT_CORE, &core);
      Work(si, w, skip, lim, fd);
      _exit(0);
    }
    return p;
  }

  bool RunScenario(int si) {
    const int W = G().workers;
    std::vector<pid_t> pid(W);
    std::vector<uint64_t> last(W, 0);
    std::vector<double> since(W, Now());
    std::vector<int> crashes(W, 0);
    std::string rep = G().outdir + "/report.tmp";
    unlink(rep.c_str());
    int fd = open(rep.c_str(), O_RDWR | O_CREAT | O_APPEND, 0600);
    for (int w = 0; w < W; ++w) pid[w] = Spawn(si, w, {}, {}, fd);
    int live = W;
    bool complete = true;
    while (live > 0) {
      for (int w = 0; w < W; ++w) {
        if (pid[w] < 0) continue;
        int st = 0;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        bool hang = false;
        if (r == 0) {
          uint64_t b = shm_[w].beat;
          if (b != last[w]) {
            last[w] = b;
            since[w] = Now();
            continue;
          } else if (Now() - since[w] > HangSecs()) {
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &st, 0);
            hang = true;
          } else {
            continue;
          }
        }
        if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm_[w].done) {
          if (shm_[w].done == 2) complete = false;
          pid[w] = -1;
          --live;
          continue;
        }
        // Crash (or exit() from the code under test) or hang.
        Found f;
        f.scenario = si;
        f.kind = hang ? "hang" : "crash";
        std::vector<uint16_t> c, l;
        for (int i = 0; i < shm_[w].nchoices; ++i) {
          c.push_back(shm_[w].choices[i]);
          l.push_back(shm_[w].limits[i]);
          f.choices.push_back(shm_[w].choices[i]);
        }
        f.label = shm_[w].label;
        f.past = Past(shm_[w]);
        if (WIFEXITED(st) && !hang && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98))
          fprintf(stderr, "mc: scenario %s is not deterministic (exit %d)\n", scenarios_[si].name.c_str(), WEXITSTATUS(st));
        std::string first = f.label.substr(0, f.label.find('\n'));
        if (first.rfind("@", 0) != 0) first = "";
        f.key = f.kind + (first.empty() ? "" : ":" + first.substr(1));
        f.msg = hang ? "execution did not finish" : WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st));
        shm_[w].fails.fetch_add(1);
        G().shared->Failed(Now());
        Add(f);
        if (++crashes[w] > MaxCrashes() || Now() > G().deadline || G().shared->Stop(Now())) {
          complete = false;
          pid[w] = -1;
          --live;
          continue;
        }
        pid[w] = Spawn(si, w, c, l, fd);
        since[w] = Now();
      }
      usleep(2000);
    }
    // Collect reports.
    lseek(fd, 0, SEEK_SET);
    std::string all;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) all.append(buf, n);
    close(fd);
    unlink(rep.c_str());
    size_t p = 0;
    while (p < all.size()) {
      size_t e = all.find('\x1e', p);
      if (e == std::string::npos) break;
      std::vector<std::string> parts;
      std::string rec = all.substr(p, e - p), cur;
      p = e + 1;
      for (char ch : rec) {
        if (ch == '\x1f') { parts.push_back(cur); cur.clear(); }
        else cur += ch;
      }
      parts.push_back(cur);
      if (parts[0] == "S" && parts.size() > 1) {
        if (!samples_.count(si)) samples_[si] = parts[1];
        continue;
      }
      if (parts.size() < 5) continue;
      Found f;
      f.scenario = si;
      f.kind = "fail";
      f.key = parts[1];
      f.msg = parts[2];
      f.label = parts[3];
      std::istringstream is(parts[4]);
      int c;
      while (is >> c) f.choices.push_back(c);
      for (size_t i = 5; i < parts.size(); ++i) {
        std::istringstream is(parts[i]);
        f.past.emplace_back();
        while (is >> c) f.past.back().push_back(c);
      }
      Add(f);
    }
    return complete;
  }
  static double HangSecs() {
    const char* e = getenv("MC_HANG");
    return e ? atof(e) : 30;
  }
  static int MaxCrashes() {
    const char* e = getenv("MC_MAXCRASH");
    return e ? atoi(e) : 40;
  }

  void Add(const Found& f) {
    for (auto& g : found_)
      if (g.scenario == f.scenario && g.key == f.key) {
        if (f.choices.size() < g.choices.size()) g = f;
        return;
      }
    if (found_.size() < 60) found_.push_back(f);
  }

  void RunPast(const Found& f) {
    for (size_t i = f.past.size() - f.need; i < f.past.size(); ++i) {
      Ctx ctx;
      ctx.shm = &shm_[0];
      ctx.choices.assign(f.past[i].begin(), f.past[i].end());
      ctx.limits.assign(f.past[i].size(), 0);
      try {
        scenarios_[f.scenario].body(ctx);
      } catch (Violation&) {
      } catch (Prune&) {
      }
    }
  }
  static std::vector<std::vector<int>> Past(const WorkerShm& s) {
    std::vector<std::vector<int>> r;
    for (uint64_t i = s.past > kPast ? s.past - kPast : 0; i < s.past; ++i) {
      const uint16_t* p = s.pasts[i % kPast];
      r.emplace_back(p, p + s.npast[i % kPast]);
    }
    return r;
  }

  // Later attempts shift the heap: some of the code under test iterates over
  // hash tables keyed by pointers, so what it does depends on addresses.
  bool Reproduce(Found& f, int attempt) {
    int pfd[2];
    if (pipe(pfd)) return true;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]);
      std::string err = G().outdir + "/stderr.tmp";
      int n = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(n, 2);
      dup2(n, 1);
      RunPast(f);
      for (int i = 0; i < attempt * 7; ++i) (void)!malloc(16 + (i * 37 + attempt * 11) % 480);
      Ctx ctx;
      ctx.shm = &shm_[0];
      ctx.choices.assign(f.choices.begin(), f.choices.end());
      ctx.limits.assign(f.choices.size(), 0);
      std::string key;
      try {
        scenarios_[f.scenario].body(ctx);
      } catch (Violation& v) {
        key = v.key;
      } catch (Prune&) {
      }
      (void)!write(pfd[1], key.data(), key.size());
      _exit(key.empty() ? 0 : 42);
    }
    close(pfd[1]);
    double t = Now();
    int st = 0;
    bool hang = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
      if (Now() - t > 60) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hang = true;
        break;
      }
      usleep(1000);
    }
    std::string key;
    char buf[4096];
    ssize_t n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) key.append(buf, n);
    close(pfd[0]);
    if (f.kind == "hang") return hang;
    if (f.kind == "fail") return key == f.key;
    bool crashed = !hang && (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 42));
    if (crashed) {
      FILE* fp = fopen((G().outdir + "/stderr.tmp").c_str(), "r");
      if (fp) {
        std::string e;
        size_t k;
        while ((k = fread(buf, 1, sizeof buf, fp)) > 0 && e.size() < 6000) e.append(buf, k);
        fclose(fp);
        f.msg += "\n" + e;
      }
    }
    return crashed;
  }

  std::vector<Scenario> scenarios_;
  std::vector<Found> found_;
  std::map<size_t, std::string> samples_;
  WorkerShm* shm_ = nullptr;
  bool sampled_ = false;
};

inline int Main(int argc, char** argv, std::vector<Scenario> scenarios) {
  std::string replay, only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property") G().property = val();
    else if (a == "--tier") G().tier = val();
    else if (a == "--out") G().outdir = val();
    else if (a == "--workers") G().workers = atoi(val().c_str());
    else if (a == "--deadline") G().deadline = Now() + atof(val().c_str());
    else if (a == "--replay") replay = val();
    else if (a == "--only") only = val();
  }
  {  // a scenario named "X01/..." belongs to that property only
    std::vector<Scenario> s;
    for (auto& x : scenarios) {
      size_t slash = x.name.find('/');
      if (slash == 3 && !G().property.empty() && x.name.substr(0, 3) != G().property) continue;
      s.push_back(x);
    }
    scenarios = s;
  }
  if (!only.empty()) {
    std::vector<Scenario> s;
    for (auto& x : scenarios)
      if (x.name.find(only) != std::string::npos) s.push_back(x);
    scenarios = s;
  }
  Explorer e(std::move(scenarios));
  return replay.empty() ? e.Run() : e.Replay(replay);
}
}  // namespace mc
#endif
