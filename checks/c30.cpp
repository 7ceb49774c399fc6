// C30: calls use nothing of the process but memory, and leave the rest alone.
// A forked child takes on a generated process state (locale, environment variables,
// floating-point mode, closed or full descriptors, limits, blocked signals, errno),
// forbids itself every system call that is not about memory or waiting, makes the
// calls, and then looks whether the state it can see is what it was.
#include <fenv.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <locale.h>
#include <stddef.h>
#include <stdio_ext.h>
#include <malloc.h>
#include <ctime>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif

#include <iostream>
#include <locale>
#include <new>

#include "../lib/calls.hpp"
#include "../lib/child.hpp"
// In a strange environment every variable is set while the library runs.
static bool g_every_variable;
extern "C" char* getenv(const char* name) noexcept {
  static char one[] = "1";
  if (g_every_variable) return one;
  const size_t n = strlen(name);
  for (char** e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
extern "C" char* secure_getenv(const char* name) noexcept { return getenv(name); }
// The clock is what the drawn state says it is.
static int g_clock;  // 0: as it is, 1: stopped at the epoch, 2: stopped in 2242, 3: jumping
static uint64_t g_jump = 1;
static long long clock_now(long long real) {
  if (g_clock == 1) return 0;
  if (g_clock == 2) return 1ll << 33;
  g_jump = g_jump * 6364136223846793005ull + 1442695040888963407ull;
  return real + (long long)(g_jump >> 40) - (1 << 23);
}
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept {
  const int r = int(syscall(SYS_clock_gettime, id, ts));
  if (g_clock && r == 0) ts->tv_sec = clock_now(ts->tv_sec), ts->tv_nsec = g_clock == 3 ? long(g_jump >> 36) % 1000000000 : 0;
  return r;
}
extern "C" int gettimeofday(timeval* tv, void*) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec, tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t* to) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (to) *to = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" clock_t clock() noexcept {
  timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return clock_t(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
namespace host {
using namespace calls;
struct Rec { uint32_t kind, in, in_len, out, out_cap, done, out_len; };
constexpr size_t AREA = 1 << 20;
struct Shared {
  uint32_t n, current, trapped, nr, foreign, from, to, end;
  char where[64];
  Rec rec[12];
  char data[AREA];
};
static Shared* S;
static std::string exe_dir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  std::string s(b, n > 0 ? size_t(n) : 0);
  return s.substr(0, s.rfind('/'));
}
static const char* const locales[] = {"C", "C.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "ja_JP.EUC-JP", "fa_IR.UTF-8", "ru_RU.KOI8-R"};
static const char* const labels[] = {"locale C", "locale C.UTF-8", "locale tr_TR.UTF-8", "locale tr_TR.ISO-8859-9", "locale de_DE.ISO-8859-1", "locale ja_JP.EUC-JP", "locale fa_IR.UTF-8", "locale ru_RU.KOI8-R"};
// --- the state of the process ---------------------------------------------------------
struct State {
  uint32_t locale = 0, how = 0, round = 0, fds = 0, env = 0, limits = 0, err = 0, seed = 1;
  bool flush = false, signals = false, filter = true, thread = false, traps = false, unwinding = false;
  uint32_t clock = 0, fill = 0;
  std::string text() const {
    std::string s = std::string("locale ") + locales[locale] + (locale ? how == 0 ? " (setlocale)" : how == 1 ? " (std::locale::global)" : " (uselocale)" : "");
    static const char* const r[] = {"", ", rounding down", ", rounding up", ", rounding toward zero"};
    static const char* const f[] = {"", ", descriptors 0-2 closed", ", output to /dev/full", ", cwd /dev"};
    static const char* const e[] = {"", ", no environment", ", every environment variable set to 1"};
    static const char* const l[] = {"", ", no more descriptors", ", no file writes", ", no new processes"};
    return s + r[round] + (flush ? ", denormals flushed" : "") + f[fds] + e[env] + l[limits] + (signals ? ", signals blocked" : "") + ", errno " + std::to_string(err) + (thread ? ", in a thread" : "") + (traps ? ", floating-point traps enabled" : "") + (unwinding ? ", in a destructor while an exception unwinds" : "") + (clock ? clock == 1 ? ", clock stopped in 1970" : clock == 2 ? ", clock stopped in 2242" : ", clock jumping" : "") + (fill ? ", heap filled with " + std::to_string(fill) : "");
  }
};
static State draw(Tape& t) {
  State s;
  if (t.p(190)) s.locale = t.u(8), s.how = t.u(3);
  if (t.p(128)) s.round = t.u(4);
  s.flush = t.p(60);
  if (t.p(120)) s.fds = t.u(4);
  if (t.p(120)) s.env = t.u(3);
  if (t.p(120)) s.limits = t.u(4);
  s.signals = t.p(60);
  s.err = t.p(128) ? t.u(40) : 0;
  s.thread = t.p(60);
  s.seed = 1 + t.u(1000);
  s.traps = t.p(60);
  s.unwinding = t.p(40);
  if (t.p(60)) s.clock = 1 + t.u(3);
  if (t.p(80)) s.fill = 1 + t.u(255);
  return s;
}
static unsigned mode() {
#if defined(__x86_64__)
  unsigned short cw;
  asm volatile("fnstcw %0" : "=m"(cw));
  return (_mm_getcsr() & ~0x3fu) ^ (unsigned(cw) << 16);
#else
  return unsigned(fegetround());
#endif
}
static std::string environment() {
  std::string s;
  for (char** e = environ; e && *e; e++) s += std::string(*e) + "\n";
  return s;
}
extern "C" void on_syscall(int, siginfo_t* si, void*) {
  S->nr = uint32_t(si->si_syscall);
  S->trapped = 1;
  _exit(0);
}
// Only memory, waiting and leaving.
static bool forbid() {
  static const int allowed[] = {SYS_brk, SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_madvise, SYS_futex, SYS_sched_yield, SYS_nanosleep, SYS_clock_nanosleep, SYS_clock_gettime, SYS_gettimeofday, SYS_getrandom, SYS_membarrier, SYS_gettid, SYS_rt_sigreturn, SYS_exit, SYS_exit_group, SYS_restart_syscall
#if defined(SYS_rseq)
                                , SYS_rseq
#endif
  };
  std::vector<sock_filter> f;
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
  for (int nr : allowed) {
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, uint32_t(nr), 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  }
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  sock_fprog p{(unsigned short)f.size(), f.data()};
  struct sigaction sa {};
  sa.sa_sigaction = on_syscall;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGSYS, &sa, nullptr);
  sigset_t m;
  sigemptyset(&m);
  sigaddset(&m, SIGSYS);
  sigprocmask(SIG_UNBLOCK, &m, nullptr);
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0) == 0;
}
static void note(const char* what) { if (!S->where[0]) strncpy(S->where, what, sizeof S->where - 1); }
static void make_calls() {
  for (uint32_t i = 0; i < S->n; i++) {
    Rec& r = S->rec[i];
    S->current = i + 1;
    std::string o = call(r.kind, S->data + r.in, r.in_len);
    r.out_len = uint32_t(o.size());
    if (o.size() <= r.out_cap) memcpy(S->data + r.out, o.data(), o.size());
    r.done = 1;
  }
  S->current = 0;
}
static std::string hx(uint32_t v) { char b[16]; snprintf(b, sizeof b, "%04X", v); return b; }
// Every function on single code points and short strings of them; results one after the other.
static std::string one(uint32_t cp, uint32_t kind, bool first) {
  const bool word = kind == MAP || kind == NORMALIZE || kind == VALID || kind == NAME || kind == ENCODE || kind == RTL || kind == TO_UTF8 || kind == NFC;
  if (kind == NAME) return raw(u32{char32_t(cp), char32_t(first)});
  const bool ascii = cp < 0x80, bare = kind == DECODE || kind == VERIFY || kind == FORBIDDEN || kind == ASCII_MAP;
  u32 w;
  if (!first || kind == TO_UNICODE || kind == TO_UNICODE_RET) w = U"xn--b";
  if (bare) w = first ? U"" : U"ab-";
  if (!bare || ascii) w += char32_t(cp);
  if (first) w += U"A";
  return word ? raw(w) : ref::utf8(w);
}
static bool asked(uint32_t cp, uint32_t kind) {
  if (cp >= 0x110000 || (cp >= 0xD800 && cp < 0xE000)) return kind == NAME || kind == MAP || kind == ENCODE;
  return kind != NFC && (kind != RTL || ucd::status(cp) == ucd::V) && kind != VALID;
}
static void sweep_calls() {
  size_t at = S->to;
  const size_t end = at + AREA / 2;
  for (uint32_t cp = S->from; cp < S->from + S->n; cp++)
    for (uint32_t kind = 0; kind < NKIND; kind++)
      for (int first = 0; first < 2; first++) {
        if (!asked(cp, kind)) continue;
        const std::string in = one(cp, kind, first != 0);
        std::string o = call(kind, in.data(), in.size());
        if (at + o.size() + 1 > end || o.size() > 255) continue;
        S->data[at++] = char(o.size());
        memcpy(S->data + at, o.data(), o.size());
        at += o.size();
      }
  S->end = uint32_t(at);
}
static void the_new_handler() { throw std::bad_alloc(); }
// In the child: everything between the two looks at the state is the library's doing.
static void act(const State& s, void (*calls)() = make_calls) {
  static const std::string dir = exe_dir() + "/locales";
  locale_t own = nullptr;
  if (s.locale) {
    setenv("LOCPATH", dir.c_str(), 1);
    if (s.how == 0) S->foreign = setlocale(LC_ALL, locales[s.locale]) != nullptr;
    else if (s.how == 1) { try { std::locale::global(std::locale(locales[s.locale])); S->foreign = 1; } catch (std::exception&) {} }
    else own = newlocale(LC_ALL_MASK, locales[s.locale], nullptr);
  }
  if (s.env == 1) clearenv();
  if (s.limits) {
    rlimit none{0, 0};
    setrlimit(s.limits == 1 ? RLIMIT_NOFILE : s.limits == 2 ? RLIMIT_FSIZE : RLIMIT_NPROC, &none);
  }
  if (s.fds == 1) { close(0); close(1); close(2); }
  if (s.fds == 2) { int f = open("/dev/full", O_WRONLY); if (f >= 0) { dup2(f, 1); dup2(f, 2); close(f); } }
  if (s.fds == 3 && chdir("/dev")) {}
  if (s.signals) { sigset_t all; sigfillset(&all); sigprocmask(SIG_SETMASK, &all, nullptr); }
  std::set_new_handler(the_new_handler);
  if (s.fill) mallopt(M_PERTURB, int(s.fill));
  auto work = [&s, own, calls] {
    if (own) S->foreign = uselocale(own) != locale_t(0);
    if (!forbid()) { S->nr = 1; }
    static const int rounds[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
    fesetround(rounds[s.round]);
#if defined(__x86_64__)
    if (s.flush) _mm_setcsr(_mm_getcsr() | 0x8040);
#endif
    if (s.traps) feenableexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW);
    srand(s.seed);
    srand48(long(s.seed));
    const std::string loc = setlocale(LC_ALL, nullptr), env = environment(), cpp = std::locale().name();
    const locale_t mine = uselocale(locale_t(0));
    const unsigned m = mode();
    const auto out = std::cout.flags(), err = std::cerr.flags();
    const auto th = std::get_terminate();
    g_every_variable = s.env == 2;
    g_clock = int(s.clock);
    g_jump = s.seed;
    errno = int(s.err);
    if (s.unwinding) {
      struct Calls {
        void (*calls)();
        int err;
        ~Calls() { errno = err; calls(); }
      };
      try {
        Calls at_end{calls, int(s.err)};
        throw s.err;
      } catch (uint32_t) {}
    } else calls();
    g_clock = 0;
    g_every_variable = false;
    if (mode() != m) note("the floating-point mode");
    if (loc != setlocale(LC_ALL, nullptr) || mine != uselocale(locale_t(0)) || cpp != std::locale().name()) note("the locale");
    if (env != environment()) note("the environment variables");
    if (__fpending(stdout) || __fpending(stderr)) note("standard output (something was written)");
    if (std::cout.flags() != out || std::cerr.flags() != err || !std::cout.good() || !std::cerr.good() || !std::cin.good()) note("the standard streams");
    if (!std::ios::sync_with_stdio(true)) note("the standard streams");
    if (std::get_new_handler() != the_new_handler) note("the new handler");
    if (std::get_terminate() != th) note("the terminate handler");
    const int a = rand();
    const long b = lrand48();
    srand(s.seed);
    srand48(long(s.seed));
    if (a != rand() || b != lrand48()) note("the random number generators");
    _exit(0);
  };
  if (s.thread) {
    pthread_t t;
    static auto* w = &work;
    if (pthread_create(&t, nullptr, [](void*) -> void* { (*w)(); return nullptr; }, nullptr)) work();
    else pthread_join(t, nullptr);
  } else work();
}
static bool shared() {
  static pid_t owner = 0;
  if (owner != getpid()) {
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (S == MAP_FAILED) return false;
    owner = getpid();
  }
  memset(S, 0, offsetof(Shared, data));
  return true;
}
static int ended(Ctx& c, pid_t pid) {
  int ws = 0;
  double t0 = now();
  for (int spin = 0; waitpid(pid, &ws, WNOHANG) != pid; spin++) {
    if (now() - t0 > 30) { kill(pid, SIGKILL); waitpid(pid, &ws, 0); c.fail("the calls did not finish within 30 s"); }
    if (spin < 50) sched_yield();
    else usleep(100);
  }
  return ws;
}
static void run(Ctx& c) {
  auto& t = c.t;
  if (!shared()) return;
  const State st = draw(t);
  uint32_t n = 1 + t.u(8);
  std::string shown[12], in[12], d = st.text() + ": ";
  Want want[12];
  size_t used = 0;
  const bool one = t.p(60);
  const uint32_t k0 = t.u(NKIND);
  for (uint32_t i = 0; i < n; i++) {
    Rec& r = S->rec[i];
    r.kind = one ? k0 : t.u(NKIND);
    in[i] = input(t, r.kind, shown[i], want[i]);
    r.in_len = uint32_t(in[i].size());
    r.out_cap = uint32_t(std::max(want[i].a.size(), want[i].b.size()));
    if (used + r.in_len + r.out_cap > AREA) { n = i; break; }
    r.in = uint32_t(used);
    memcpy(S->data + used, in[i].data(), r.in_len);
    used += r.in_len;
    r.out = uint32_t(used);
    used = (used + r.out_cap + 7) & ~size_t(7);
    if (d.size() < 1500) d += std::string(i ? "; " : "") + kinds[r.kind] + "(" + shown[i].substr(0, 200) + ")";
  }
  S->n = n;
  c.show(d);
  pid_t pid = fork();
  if (pid < 0) return;
  if (pid == 0) act(st);
  int ws = ended(c, pid);
  auto where = [&](uint32_t i) { return std::string(kinds[S->rec[i].kind]) + "(" + shown[i] + ")"; };
  if (S->trapped) c.fail("system call " + std::to_string(S->nr) + " was made" + (S->current ? " by " + where(S->current - 1) : std::string(" after the calls")));
  c.label(S->foreign || !st.locale ? labels[st.locale] : "a locale that is not installed");
  if (S->nr) c.label("system calls could not be watched");
  else c.label("system calls watched");
  if (!WIFEXITED(ws) || WEXITSTATUS(ws)) {
    std::string how = WIFSIGNALED(ws) ? std::string("was killed by signal: ") + strsignal(WTERMSIG(ws)) : "ended with status " + std::to_string(WEXITSTATUS(ws));
    c.fail("the process " + how + (S->current ? ", in " + where(S->current - 1) : std::string()));
  }
  uint64_t h = hash_bytes(d.data(), std::min<size_t>(d.size(), 80));
  for (uint32_t i = 0; i < n; i++) {
    Rec& r = S->rec[i];
    if (!r.done) c.fail("never made: " + where(i));
    h = mix(h, hash_bytes(in[i].data(), in[i].size()) + r.kind);
    std::string got = r.out_len <= r.out_cap ? std::string(S->data + r.out, r.out_len) : "";
    if (r.out_len <= r.out_cap && (got == want[i].a || (want[i].either && got == want[i].b))) continue;
    c.fail(where(i) + " gave " + (r.out_len <= r.out_cap ? q(got) : std::to_string(r.out_len) + " bytes") + ", expected " + q(want[i].a));
  }
  if (S->where[0]) c.fail(std::string("the calls changed ") + S->where);
  c.nontrivial(h);
}
// The same calls in a plain process and in a strange one.
static void sweep(Ctx& c) {
  auto& t = c.t;
  if (!shared()) return;
  State st = draw(t);
  if (!st.locale && !st.round && !st.env) st.locale = 2 + t.u(6), st.how = t.u(3);
  const uint32_t n = 1 + t.u(384), from = t.p(170) ? t.u(0x500) : t.p(128) ? t.u(0x3000) : t.u(0x110100);
  c.show(st.text() + ": every function on the code points from " + hx(from) + " to " + hx(from + n - 1));
  S->n = n;
  S->from = from;
  pid_t pid = fork();
  if (pid < 0) return;
  if (pid == 0) { sweep_calls(); _exit(0); }
  const int plain = ended(c, pid);
  const uint32_t end0 = S->end;
  S->to = AREA / 2;
  pid = fork();
  if (pid < 0) return;
  if (pid == 0) act(st, sweep_calls);
  const int strange = ended(c, pid);
  if (plain) c.fail("the process in its plain state did not end normally");
  if (S->trapped) c.fail("system call " + std::to_string(S->nr) + " was made");
  if (strange) c.fail("the process did not end normally (status " + std::to_string(strange) + ")");
  size_t x = 0, y = AREA / 2;
  for (uint32_t cp = from; cp < from + n; cp++)
    for (uint32_t kind = 0; kind < NKIND; kind++)
      for (int first = 0; first < 2; first++) {
        if (!asked(cp, kind) || x >= end0) continue;
        std::string a(S->data + x + 1, (unsigned char)S->data[x]), b(S->data + y + 1, (unsigned char)S->data[y]);
        if (a != b) c.fail(std::string(kinds[kind]) + " of " + q(one(cp, kind, first != 0)) + " (U+" + hx(cp) + ") gave " + q(b) + ", in a plain process " + q(a));
        x += a.size() + 1;
        y += b.size() + 1;
      }
  if (S->end - AREA / 2 != end0) c.fail("different results in a plain process");
  if (S->where[0]) c.fail(std::string("the calls changed ") + S->where);
  c.label(S->foreign || !st.locale ? labels[st.locale] : "a locale that is not installed");
  c.label(S->nr ? "system calls could not be watched" : "system calls watched");
  c.nontrivial(hash_bytes(&st, sizeof st, from * 1000 + n));
}
}  // namespace host
int main(int argc, char** argv) { return pbt::engine_main(argc, argv, {{"host", host::run, 24000, 500000}, {"sweep", host::sweep, 4000, 100000}}, "default"); }
