// Property runner. See DESIGN.md ("Engine").
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

#include "tape.hpp"

namespace pbt {
struct Fail { std::string msg; };

constexpr size_t TAPE_CAP = 1 << 18;
constexpr size_t SLOTS = 1 << 26;  // distinct-case table (pages are touched as needed)
constexpr int NLABEL = 192, NSAMPLE = 24, SAMPLE_LEN = 1400;

struct Label { std::atomic<uint64_t> hash; std::atomic<uint64_t> n; char name[48]; };
struct Worker {
  std::atomic<uint64_t> idx;      // case being run
  std::atomic<uint64_t> done;
  std::atomic<int> failed;        // 1: Fail thrown
  std::atomic<uint64_t> tape_len;
  char msg[6000];
  char desc[6000];
  uint8_t tape[TAPE_CAP];
};
struct Shared {
  std::atomic<uint64_t> evals, nontrivial, distinct, stop;
  Label labels[NLABEL];
  std::atomic<int> nsamples;
  char samples[NSAMPLE][SAMPLE_LEN];
  std::atomic<uint64_t> table[SLOTS];
};
inline Shared* g = nullptr;

inline std::string printable(std::string_view s, size_t max = 300) {
  std::string o;
  char b[8];
  for (size_t i = 0; i < s.size(); i++) {
    if (o.size() > max) { snprintf(b, sizeof b, "..."); o += b; o += "(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char c = (unsigned char)s[i];
    if (c >= 0x20 && c < 0x7F && c != '\\' && c != '"') o += char(c);
    else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  return o;
}
inline std::string printable(std::u32string_view s, size_t max = 300) {
  std::string o;
  char b[16];
  for (size_t i = 0; i < s.size(); i++) {
    if (o.size() > max) { o += "...(" + std::to_string(s.size()) + " cps)"; break; }
    if (s[i] > 0x20 && s[i] < 0x7F && s[i] != '\\' && s[i] != '"') o += char(s[i]);
    else { snprintf(b, sizeof b, "{%X}", unsigned(s[i])); o += b; }
  }
  return o;
}
inline std::string q(std::string_view s) { return "\"" + printable(s) + "\""; }
inline std::string q(std::u32string_view s) { return "u\"" + printable(s) + "\""; }

inline uint64_t inputs_in_case = 0;  // a case of a sweep tries many inputs
struct Ctx {
  Tape& t;
  uint64_t idx = 0;       // sweep index
  Worker* w = nullptr;    // null when replaying outside a worker
  std::string desc;
  bool sampled = false;
  bool quiet = false;     // shrinking: do not count
  explicit Ctx(Tape& tt) : t(tt) {}
  [[noreturn]] void fail(const std::string& m) { throw Fail{m}; }
  void check(bool c, const std::string& m) { if (!c) fail(m); }
  void show(const std::string& d) {  // say what is about to be run, so that a crash has a name
    desc = d;
    if (w) {
      size_t n = std::min(d.size(), sizeof(w->desc) - 1);
      memcpy(w->desc, d.data(), n);
      w->desc[n] = 0;
    }
  }
  void label(const char* name, uint64_t k = 1) {
    if (quiet || !g) return;
    uint64_t h = hash_bytes(name, strlen(name)) | 1;
    for (int i = 0; i < NLABEL; i++) {
      auto& l = g->labels[(h + uint64_t(i)) % NLABEL];
      uint64_t cur = l.hash.load(std::memory_order_relaxed);
      if (cur == 0) {
        uint64_t e = 0;
        if (l.hash.compare_exchange_strong(e, h)) { strncpy(l.name, name, sizeof l.name - 1); cur = h; }
        else cur = e;
      }
      if (cur == h) { l.n.fetch_add(k, std::memory_order_relaxed); return; }
    }
  }
  void nontrivial(uint64_t h) {
    if (quiet || !g) return;
    g->nontrivial.fetch_add(1, std::memory_order_relaxed);
    inputs_in_case++;
    h |= 1;
    for (size_t i = 0; i < 64; i++) {
      auto& s = g->table[(h * 0x9E3779B97F4A7C15ull >> 36) % SLOTS ^ i];
      uint64_t cur = s.load(std::memory_order_relaxed);
      if (cur == h) return;
      if (cur == 0) {
        uint64_t e = 0;
        if (s.compare_exchange_strong(e, h)) { g->distinct.fetch_add(1, std::memory_order_relaxed); return; }
        if (e == h) return;
      }
    }  // table full here: the case is not counted as distinct
  }
  void nontrivial(std::string_view s) { nontrivial(hash_bytes(s.data(), s.size())); }
  void nontrivial(std::u32string_view s) { nontrivial(hash_bytes(s.data(), s.size() * 4)); }
};

using Fn = void (*)(Ctx&);
struct Prop {
  const char* name;
  Fn fn;
  uint64_t quick, thorough;  // random cases, or the sweep's size (sweep = both equal)
  bool sweep = false;
  int max_workers = 0;
  bool flaky = false;  // schedule-dependent: one observed failure is reported even if a replay passes
};

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
struct Opt {
  uint64_t seed = 1;
  bool thorough = false;
  int workers = 8;
  bool no_shrink = false;
  double cpu_limit = 30;     // CPU seconds one case may take
  double wall_limit = 240;   // wall-clock seconds one case may take
  std::string out, replay_dir, id, replay, dump;
  double scale = 1;
  uint64_t mem_limit = 0;
};
inline Opt opt;

inline void arm(double s) {
  itimerval v{};
  v.it_value.tv_sec = long(s);
  v.it_value.tv_usec = long((s - double(long(s))) * 1e6);
  setitimer(ITIMER_PROF, &v, nullptr);
}
template <class T>
T* share(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<T*>(p);
}
inline uint64_t case_seed(const Prop& p, uint64_t i) { return mix(mix(opt.seed, hash_bytes(p.name, strlen(p.name))), i); }

inline void put_sample(Ctx& c, const Prop& p) {
  int k = g->nsamples.fetch_add(1);
  if (k >= NSAMPLE) { g->nsamples.store(NSAMPLE); return; }
  std::string s = std::string(p.name) + ": " + c.desc;
  size_t n = std::min(s.size(), size_t(SAMPLE_LEN - 1));
  memcpy(g->samples[k], s.data(), n);
  g->samples[k][n] = 0;
}
// Runs one case in this process. Throws Fail.
inline void run_one(const Prop& p, Tape& t, Worker* w, uint64_t idx, bool quiet) {
  Ctx c(t);
  c.w = w;
  c.idx = idx;
  c.quiet = quiet;
  if (p.sweep) c.idx = t.u32();
  try {
    p.fn(c);
  } catch (Fail& f) {
    f.msg += "  [case: " + c.desc + "]";
    throw;
  } catch (std::exception& e) {
    throw Fail{std::string("unexpected exception: ") + e.what() + "  [case: " + c.desc + "]"};
  }
  if (!quiet && g && !c.desc.empty() && p.quick && (idx % std::max<uint64_t>(1, p.quick / 3)) == 1) put_sample(c, p);
}
inline void silence() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}
inline void set_tape(Worker* w, const std::vector<uint8_t>& t) {
  memcpy(w->tape, t.data(), t.size());
  w->tape_len = t.size();
}
// Runs a list of tapes in one fresh child. Returns "" if all passed.
struct Outcome { bool bad = false; std::string msg; size_t at = 0; };
inline Outcome in_child(const Prop& p, const std::vector<std::vector<uint8_t>>& tapes, Worker* w) {
  w->failed = 0;
  w->msg[0] = w->desc[0] = 0;
  w->idx = 0;
  int pfd[2];
  if (pipe(pfd)) exit(2);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(pfd[0]);
    dup2(pfd[1], 2);
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    for (size_t k = 0; k < tapes.size(); k++) {
      w->idx = k;
      arm(opt.cpu_limit);
      std::vector<uint8_t> copy = tapes[k];
      Tape t(copy.data(), copy.size());
      try {
        run_one(p, t, w, k, true);
      } catch (Fail& f) {
        strncpy(w->msg, f.msg.c_str(), sizeof w->msg - 1);
        w->failed = 1;
        _exit(77);
      }
    }
    _exit(0);
  }
  close(pfd[1]);
  std::string err;
  char b[4096];
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  double t0 = now();
  int st = 0;
  bool timed = false;
  for (;;) {
    ssize_t n = read(pfd[0], b, sizeof b);
    if (n > 0) { if (err.size() < 20000) err.append(b, size_t(n)); continue; }
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > opt.wall_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timed = true; break; }
    usleep(200);
  }
  for (;;) { ssize_t n = read(pfd[0], b, sizeof b); if (n <= 0) break; if (err.size() < 20000) err.append(b, size_t(n)); }
  close(pfd[0]);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !timed) return o;
  o.bad = true;
  o.at = w->idx;
  if (w->failed) o.msg = w->msg;
  else {
    std::string first;
    for (const char* key : {"ERROR: AddressSanitizer", "runtime error:", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "Assertion", "terminate called"}) {
      size_t k = err.find(key);
      if (k != std::string::npos) {
        size_t b0 = err.rfind('\n', k), e0 = err.find('\n', k);
        first = err.substr(b0 == std::string::npos ? 0 : b0 + 1, e0 == std::string::npos ? e0 : e0 - (b0 == std::string::npos ? 0 : b0 + 1));
        break;
      }
    }
    if (timed) o.msg = "did not finish within the wall-clock limit";
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) o.msg = "one call used more than " + std::to_string(int(opt.cpu_limit)) + " s of CPU time";
    else if (WIFSIGNALED(st)) o.msg = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + " " + first;
    else o.msg = "exited with status " + std::to_string(WEXITSTATUS(st)) + " " + first;
    o.msg += std::string("  [case: ") + w->desc + "]";
  }
  return o;
}
using Tapes = std::vector<std::vector<uint8_t>>;
inline std::string hex(const std::vector<uint8_t>& v) {
  std::string o;
  char b[4];
  for (auto c : v) { snprintf(b, sizeof b, "%02x", c); o += b; }
  return o;
}
inline std::vector<uint8_t> unhex(const std::string& s) {
  std::vector<uint8_t> o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back(uint8_t(strtoul(s.substr(i, 2).c_str(), nullptr, 16)));
  return o;
}
inline Tapes shrink(const Prop& p, Tapes ts, Worker* w, std::string& msg, int& steps) {
  double t0 = now();
  auto bad = [&](const Tapes& c) {
    if (now() - t0 > 60 || steps > 3000) return false;
    steps++;
    auto o = in_child(p, c, w);
    if (o.bad) msg = o.msg;
    return o.bad;
  };
  if (p.sweep) return ts;
  // drop whole tapes first
  for (size_t i = 0; i + 1 < ts.size();) {
    Tapes c = ts;
    c.erase(c.begin() + long(i));
    if (bad(c)) ts = c;
    else i++;
  }
  auto& last = ts.back();
  for (bool progress = true; progress && now() - t0 < 60;) {
    progress = false;
    while (!last.empty() && last.back() == 0) last.pop_back();
    for (size_t k = std::max<size_t>(1, last.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i < last.size();) {
        Tapes c = ts;
        auto& v = c.back();
        v.erase(v.begin() + long(i), v.begin() + long(std::min(i + k, v.size())));
        if (bad(c)) { ts = c; progress = true; }
        else i += k;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < last.size(); i++) {
      if (last[i] == 0) continue;
      for (uint8_t nv : {uint8_t(0), uint8_t(last[i] / 2), uint8_t(last[i] - 1)}) {
        if (nv >= last[i]) continue;
        Tapes c = ts;
        c.back()[i] = nv;
        if (bad(c)) { ts = c; progress = true; break; }
      }
    }
  }
  return ts;
}
inline std::string jstr(std::string_view s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7F) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}
struct Found { bool bad = false; std::string msg, path; };

inline Found report(const Prop& p, Tapes ts, const std::string& msg, const std::string& config) {
  Found f;
  f.bad = true;
  f.msg = msg;
  f.path = opt.replay_dir + "/" + opt.id + "-" + p.name + ".replay";
  FILE* o = fopen(f.path.c_str(), "w");
  if (!o) { perror(f.path.c_str()); exit(2); }
  fprintf(o, "property %s\nsub %s\nconfig %s\nmessage %s\n", opt.id.c_str(), p.name, config.c_str(), printable(msg, 4000).c_str());
  for (auto& t : ts) fprintf(o, "tape %s\n", hex(t).c_str());
  fclose(o);
  return f;
}

inline Found run_prop(const Prop& p, const std::string& config, int attempt = 0) {
  uint64_t total = opt.thorough ? p.thorough : p.quick;
  if (!p.sweep) total = std::max<uint64_t>(1, uint64_t(double(total) * opt.scale));
  int W = opt.workers;
  if (p.max_workers && W > p.max_workers) W = p.max_workers;
  Worker* ws = share<Worker>(size_t(W) + 1);
  std::vector<pid_t> pid(static_cast<size_t>(W));
  std::vector<std::pair<uint64_t, double>> beat(static_cast<size_t>(W));
  fflush(nullptr);
  g->stop = 0;
  for (int k = 0; k < W; k++) {
    pid_t c = fork();
    if (c < 0) { perror("fork"); exit(2); }
    if (c == 0) {
      silence();
      Worker* w = &ws[k];
      for (uint64_t i = uint64_t(k); i < total; i += uint64_t(W)) {
        if (g->stop.load(std::memory_order_relaxed)) break;
        w->idx = i + 1;
        arm(opt.cpu_limit);
        w->desc[0] = 0;
        Tape t(w->tape, TAPE_CAP, case_seed(p, i));
        if (p.sweep) { uint32_t v = uint32_t(i); memcpy(w->tape, &v, 4); t.len = 4; t.grow = false; }
        inputs_in_case = 0;
        try {
          run_one(p, t, w, i, false);
        } catch (Fail& f) {
          strncpy(w->msg, f.msg.c_str(), sizeof w->msg - 1);
          w->failed = 1;
          g->stop = 1;
          _exit(77);
        }
        g->evals.fetch_add(std::max<uint64_t>(1, inputs_in_case), std::memory_order_relaxed);
        w->done++;
      }
      _exit(0);
    }
    pid[size_t(k)] = c;
    beat[size_t(k)] = {0, now()};
  }
  int bad = -1, left = W;
  std::string msg;
  while (left > 0) {
    usleep(2000);
    for (int k = 0; k < W; k++) {
      if (!pid[size_t(k)]) continue;
      int st;
      pid_t r = waitpid(pid[size_t(k)], &st, WNOHANG);
      auto& b = beat[size_t(k)];
      if (r == 0) {
        uint64_t i = ws[k].idx;
        if (i != b.first) { b = {i, now()}; continue; }
        if (now() - b.second > opt.wall_limit) { kill(pid[size_t(k)], SIGKILL); waitpid(pid[size_t(k)], &st, 0); r = pid[size_t(k)]; }
        else continue;
      }
      pid[size_t(k)] = 0;
      left--;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        g->stop = 1;
        if (bad < 0 || ws[k].idx < ws[bad].idx) bad = k;
      }
    }
  }
  Found f;
  if (bad >= 0) {
    uint64_t idx = ws[bad].idx - 1;  // failing case
    auto tape_for = [&](uint64_t i) {
      std::vector<uint8_t> v;
      if (p.sweep) { uint32_t x = uint32_t(i); v.resize(4); memcpy(v.data(), &x, 4); return v; }
      // regenerate: random tapes are prefixes of the case's PRNG stream
      Rng64 r(case_seed(p, i));
      size_t n = TAPE_CAP;
      v.resize(n);
      for (auto& c : v) c = uint8_t(r.next() >> 33);
      return v;
    };
    std::string first = ws[bad].failed ? ws[bad].msg : std::string("crash or timeout  [case: ") + ws[bad].desc + "]";
    Worker* sw = &ws[W];
    // Reproduce: this case alone, else with more and more of what this worker ran before it.
    Tapes ts;
    Outcome o;
    double repro = 0;
    uint64_t before = idx / uint64_t(W);
    for (uint64_t h = 0;; h = h ? h * 4 : 1) {
      if (h > before) h = before;
      ts.clear();
      for (uint64_t j = h; j > 0; j--) ts.push_back(tape_for(idx - j * uint64_t(W)));
      ts.push_back(tape_for(idx));
      if (ts.size() > 300) break;
      double r0 = now();
      o = in_child(p, ts, sw);
      repro = now() - r0;
      if (o.bad || h >= before) break;
    }
    if (p.flaky) {
      // keep the failing case only; its replay reruns the same schedule generator
      ts = {tape_for(idx)};
      if (!p.sweep) ts[0].resize(4096);
      f = report(p, ts, o.bad ? o.msg : first, config);
    } else if (!o.bad && ws[bad].failed) {
      // An oracle mismatch was computed in this process, so it happened; it depends on
      // something (a longer history, addresses) that the replay does not restore.
      ts = {tape_for(idx)};
      if (!p.sweep) ts[0].resize(4096);
      f = report(p, ts, "(not reproduced from a fresh process) " + first, config);
    } else if (!o.bad) {
      fprintf(stderr, "NOTE %s/%s: a failure did not reproduce in a fresh process: %s\n", opt.id.c_str(), p.name, first.c_str());
      munmap(ws, sizeof(Worker) * (size_t(W) + 1));
      return attempt < 2 ? run_prop(p, config, attempt + 1) : f;
    } else {
      ts.resize(o.at + 1);
      bool slow = repro > 3 || opt.no_shrink;  // a hang: shrinking would take too long
      // trim each tape to what it uses: halve while it still fails (cheap pre-shrink)
      for (size_t n = TAPE_CAP / 2; n >= 16 && !p.sweep && !slow; n /= 2) {
        Tapes c = ts;
        for (auto& t : c) if (t.size() > n) t.resize(n);
        if (in_child(p, c, sw).bad) ts = c;
        else break;
      }
      std::string m = o.msg;
      int steps = 0;
      if (!slow) ts = shrink(p, ts, sw, m, steps);
      int again = slow ? 3 : 0;
      for (int k = 0; k < 3 && !slow; k++) again += in_child(p, ts, sw).bad;
      if (again == 3 || ws[bad].failed) f = report(p, ts, m, config);
      else fprintf(stderr, "NOTE %s/%s: failure reproduced only %d/3 times: %s\n", opt.id.c_str(), p.name, again, m.c_str());
    }
  }
  munmap(ws, sizeof(Worker) * (size_t(W) + 1));
  return f;
}

inline int engine_main(int argc, char** argv, const std::vector<Prop>& props, const std::string& config) {
  std::string only, artifact;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--thorough") opt.thorough = true;
    else if (a == "--no-shrink") opt.no_shrink = true;
    else if (a == "--workers") opt.workers = atoi(val().c_str());
    else if (a == "--out") opt.out = val();
    else if (a == "--replay-dir") opt.replay_dir = val();
    else if (a == "--id") opt.id = val();
    else if (a == "--scale") opt.scale = atof(val().c_str());
    else if (a == "--replay") opt.replay = val();
    else if (a == "--only") only = val();
    else if (a == "--artifact") artifact = val();
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  g = share<Shared>();
  if (!opt.replay.empty()) {
    FILE* f = fopen(opt.replay.c_str(), "r");
    if (!f) { perror(opt.replay.c_str()); return 2; }
    std::string line, sub;
    Tapes ts;
    char* l = nullptr;
    size_t cap = 0;
    while (getline(&l, &cap, f) > 0) {
      line = l;
      while (!line.empty() && line.back() == '\n') line.pop_back();
      if (line.rfind("sub ", 0) == 0) sub = line.substr(4);
      if (line.rfind("tape", 0) == 0) ts.push_back(unhex(line.size() > 5 ? line.substr(5) : ""));
    }
    fclose(f);
    Worker* w = share<Worker>();
    for (auto& p : props)
      if (sub == p.name) {
        auto o = in_child(p, ts, w);
        printf("%s %s: %s\n", o.bad ? "FAILS" : "passes", p.name, o.bad ? o.msg.c_str() : w->desc);
        return o.bad ? 1 : 0;
      }
    printf("sub-check %s is not in this binary\n", sub.c_str());
    return 0;
  }
  if (!artifact.empty()) {  // a libFuzzer crash file: make it a replay file
    std::vector<const Prop*> ps;
    for (auto& p : props)
      if (!p.sweep && p.max_workers != 1) ps.push_back(&p);
    FILE* f = fopen(artifact.c_str(), "rb");
    if (!f) { perror(artifact.c_str()); return 2; }
    std::vector<uint8_t> d(TAPE_CAP);
    d.resize(fread(d.data(), 1, d.size(), f));
    fclose(f);
    if (d.empty() || ps.empty()) return 2;
    const Prop& p = *ps[d[0] % ps.size()];
    d.erase(d.begin());
    Worker* w = share<Worker>();
    Tapes ts = {d};
    auto o = in_child(p, ts, w);
    int steps = 0;
    std::string m = o.bad ? o.msg : "libFuzzer reported a failure that this build does not show";
    if (o.bad) ts = shrink(p, ts, w, m, steps);
    auto f2 = report(p, ts, m, config);
    printf("{\"sub\": %s, \"message\": %s, \"replay\": %s, \"confirmed\": %s}\n", jstr(p.name).c_str(), jstr(m).c_str(), jstr(f2.path).c_str(), o.bad ? "true" : "false");
    return 0;
  }
  double t0 = now();
  std::vector<std::pair<std::string, Found>> found;
  std::string per;
  for (auto& p : props) {
    if (!only.empty() && only != p.name) continue;
    uint64_t e0 = g->evals;
    double t1 = now();
    Found f = run_prop(p, config);
    per += (per.empty() ? "" : ", ") + jstr(p.name) + ": " + std::to_string(uint64_t(g->evals) - e0);
    fprintf(stderr, "  %-28s %9llu cases %6.1fs%s\n", p.name, (unsigned long long)(uint64_t(g->evals) - e0), now() - t1, f.bad ? "  FAILED" : "");
    if (f.bad) { found.emplace_back(p.name, f); break; }
  }
  std::string j = "{\"evaluations\": " + std::to_string(uint64_t(g->evals)) + ", \"nontrivial\": " + std::to_string(uint64_t(g->nontrivial)) +
                  ", \"distinct_nontrivial\": " + std::to_string(uint64_t(g->distinct)) + ", \"config\": " + jstr(config) + ", \"cases\": {" + per + "}, \"labels\": {";
  bool firstl = true;
  for (auto& l : g->labels)
    if (l.hash) { j += std::string(firstl ? "" : ", ") + jstr(l.name) + ": " + std::to_string(uint64_t(l.n)); firstl = false; }
  j += "}, \"samples\": [";
  int ns = std::min(int(g->nsamples), NSAMPLE);
  for (int k = 0; k < ns; k++) j += std::string(k ? ", " : "") + jstr(g->samples[k]);
  j += "], \"violations\": [";
  for (size_t k = 0; k < found.size(); k++)
    j += std::string(k ? ", " : "") + "{\"sub\": " + jstr(found[k].first) + ", \"message\": " + jstr(found[k].second.msg) + ", \"replay\": " + jstr(found[k].second.path) + "}";
  j += "], \"wall_s\": " + std::to_string(now() - t0) + "}\n";
  if (!opt.out.empty()) {
    FILE* o = fopen(opt.out.c_str(), "w");
    if (!o) { perror(opt.out.c_str()); return 2; }
    fputs(j.c_str(), o);
    fclose(o);
  } else fputs(j.c_str(), stdout);
  return found.empty() ? 0 : 1;
}

}  // namespace pbt

#ifdef PBT_FUZZ
// libFuzzer: the first byte picks the sub-check, the rest is its tape.
#define PBT_MAIN(config, ...)                                                     \
  static const std::vector<pbt::Prop> kProps = {__VA_ARGS__};                     \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {             \
    static std::vector<const pbt::Prop*> ps;                                      \
    if (ps.empty())                                                               \
      for (auto& p : kProps)                                                      \
        if (!p.sweep && p.max_workers != 1) ps.push_back(&p);                     \
    if (n < 1 || ps.empty()) return 0;                                            \
    std::vector<uint8_t> c(d + 1, d + n);                                         \
    Tape t(c.data(), c.size());                                                   \
    try {                                                                         \
      pbt::run_one(*ps[d[0] % ps.size()], t, nullptr, 0, true);                   \
    } catch (pbt::Fail & f) {                                                     \
      fprintf(stderr, "PBT-FAIL %s: %s\n", ps[d[0] % ps.size()]->name, f.msg.c_str()); \
      abort();                                                                    \
    }                                                                             \
    return 0;                                                                     \
  }
#else
#define PBT_MAIN(config, ...)                       \
  int main(int argc, char** argv) {                 \
    return pbt::engine_main(argc, argv, {__VA_ARGS__}, config); \
  }
#endif
