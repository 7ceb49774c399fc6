// C26: the same results before main, in threads with small stacks, in thread-local
// and static destructors, in exit handlers and after fork.
// Each case runs this program again: the parent writes the calls and their expected
// results to shared memory, the child makes each call in the phase it was given.
#include <locale.h>
#include <pthread.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <thread>

#include "../lib/calls.hpp"
using namespace props;
#if defined(__SANITIZE_ADDRESS__)
#define LIFE_STACK 1024
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define LIFE_STACK 1024
#endif
#endif
#ifndef LIFE_STACK
#define LIFE_STACK 128
#endif
namespace life {
using namespace calls;
constexpr uint32_t kStackKB = LIFE_STACK;
enum Phase : uint32_t { EARLY, STATIC_CTOR, MAIN, THREAD, THREAD_LOCAL, SMALL_STACK, FORK, MAIN_THREAD_LOCAL, EXIT_MAIN, STATIC_DTOR, EXIT_EARLY, LATE, NPHASE };
static const char* const names[] = {"a constructor function before all static initialisation", "the constructor of a static object", "main", "a thread", "a thread-local destructor", "a thread with a small stack", "a forked child", "a thread-local destructor of the main thread", "an exit handler registered in main", "the destructor of a static object", "an exit handler registered before main", "a destructor function after all static destruction"};
constexpr size_t AREA = 2 << 20;
struct Rec { uint32_t phase, kind, in, in_len, out, out_cap, done, out_len; };
struct Shared {
  uint32_t n, current, locale, stack_kb, reached;  // reached: phases entered
  Rec rec[24];
  char data[AREA];
};
static Shared* S;
static void phase(uint32_t p) {
  if (!S) return;
  S->reached |= 1u << p;
  for (uint32_t i = 0; i < S->n; i++) {
    Rec& r = S->rec[i];
    if (r.phase != p || r.done) continue;
    S->current = i + 1;
    std::string o = call(r.kind, S->data + r.in, r.in_len);
    r.out_len = uint32_t(o.size());
    if (o.size() <= r.out_cap) memcpy(S->data + r.out, o.data(), o.size());
    r.done = 1;
    S->current = 0;
  }
}
static bool any(uint32_t p) {
  for (uint32_t i = 0; i < S->n; i++) if (S->rec[i].phase == p) return true;
  return false;
}
__attribute__((constructor(101))) static void early() {
  const char* e = getenv("VERIF_LIFE");
  if (!e) return;
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(e), 0);
  if (m == MAP_FAILED) _exit(90);
  S = static_cast<Shared*>(m);
  atexit([] { phase(EXIT_EARLY); });
  phase(EARLY);
}
__attribute__((destructor(101))) static void late() { phase(LATE); }
struct Static {
  Static() { phase(STATIC_CTOR); }
  ~Static() { phase(STATIC_DTOR); }
};
static Static object;
struct Local {
  uint32_t p = NPHASE;
  ~Local() { if (p != NPHASE) phase(p); }
};
static thread_local Local local;
static int child() {
  if (S->locale) setlocale(LC_ALL, "C.UTF-8");
  if (any(EXIT_MAIN)) atexit([] { phase(EXIT_MAIN); });
  if (any(MAIN_THREAD_LOCAL)) local.p = MAIN_THREAD_LOCAL;
  if (S->locale < 2) phase(MAIN);
  if (any(THREAD) || any(THREAD_LOCAL)) std::thread([] { local.p = THREAD_LOCAL; phase(THREAD); }).join();
  if (any(SMALL_STACK)) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, size_t(S->stack_kb) << 10);
    pthread_t t;
    if (pthread_create(&t, &a, [](void*) -> void* { phase(SMALL_STACK); return nullptr; }, nullptr)) return 91;
    pthread_join(t, nullptr);
  }
  if (any(FORK)) {
    pid_t p = fork();
    if (p < 0) return 92;
    if (p == 0) { phase(FORK); _exit(0); }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return 93;
  }
  phase(MAIN);
  return 0;
}
// --- the parent ------------------------------------------------------------------
static void run(Ctx& c) {
  auto& t = c.t;
  static int fd = -1;
  static Shared* sh = nullptr;
  static pid_t owner = 0;
  if (owner != getpid()) {  // one area for each worker
    fd = int(syscall(SYS_memfd_create, "life", 0));
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) return;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (sh == MAP_FAILED) { owner = 0; return; }
    owner = getpid();
  }
  memset(sh, 0, offsetof(Shared, data));
  std::string shown[24], in[24];
  Want want[24];
  uint32_t n = 1 + t.u(5);
  if (t.p(40)) n += t.u(15);
  sh->locale = t.p(60) ? 1 + t.u(2) : 0;
  sh->stack_kb = kStackKB;
  uint32_t p0 = t.u(NPHASE);  // in many cases one phase only, so that the first call of all is made there
  bool one = t.p(100);
  // in others one function only, in one phase and one that comes later
  bool pair = !one && t.p(110);
  uint32_t p1 = pair ? p0 + t.u(NPHASE - p0) : p0, k0 = t.p(120) ? t.u(2) : t.u(NKIND);
  if (pair && t.p(60)) p0 = THREAD, p1 = THREAD_LOCAL;
  if (pair && n < 2) n = 2;
  size_t used = 0;
  std::string d;
  for (uint32_t i = 0; i < n; i++) {
    Rec& r = sh->rec[i];
    r.phase = one ? p0 : pair ? (t.p(128) ? p0 : p1) : t.u(NPHASE);
    r.kind = pair ? k0 : t.u(NKIND);
    in[i] = input(t, r.kind, shown[i], want[i]);
    r.in_len = uint32_t(in[i].size());
    r.out_cap = uint32_t(std::max(want[i].a.size(), want[i].b.size()));
    if (used + r.in_len + r.out_cap > AREA) { n = i; break; }
    r.in = uint32_t(used);
    memcpy(sh->data + used, in[i].data(), r.in_len);
    used += r.in_len;
    r.out = uint32_t(used);
    used += r.out_cap;
    used = (used + 7) & ~size_t(7);
    if (d.size() < 1500) d += std::string(i ? "; " : "") + kinds[r.kind] + "(" + shown[i].substr(0, 200) + ") in " + names[r.phase];
    c.label(names[r.phase]);
  }
  sh->n = n;
  c.show(d);
  std::string env = "VERIF_LIFE=" + std::to_string(fd);
  std::vector<char*> envp{env.data()};
  for (char** e = environ; *e; e++) envp.push_back(*e);
  envp.push_back(nullptr);
  char self[] = "/proc/self/exe";
  char* argv[] = {self, nullptr};
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  if (!getenv("VERIF_LIFE_STDERR")) posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  pid_t pid = -1;
  int e = posix_spawn(&pid, self, &fa, nullptr, argv, envp.data());
  posix_spawn_file_actions_destroy(&fa);
  if (e) return;
  int st = 0;
  double t0 = now();
  for (int spin = 0; waitpid(pid, &st, WNOHANG) != pid; spin++) {
    if (now() - t0 > 30) { kill(pid, SIGKILL); waitpid(pid, &st, 0); c.fail("the process did not finish within 30 s"); }
    if (spin < 20) sched_yield();
    else usleep(100);
  }
  auto where = [&](uint32_t i) { return std::string(kinds[sh->rec[i].kind]) + "(" + shown[i] + ") in " + names[sh->rec[i].phase]; };
  if (WIFEXITED(st) && (WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) <= 94 && WEXITSTATUS(st) != 93)) return;  // it could not be set up
  if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    std::string how = WIFSIGNALED(st) ? std::string("was killed by signal: ") + strsignal(WTERMSIG(st)) : "ended with status " + std::to_string(WEXITSTATUS(st));
    c.fail("the process " + how + (sh->current ? ", in " + where(sh->current - 1) : std::string()));
  }
  uint64_t h = 0;
  for (uint32_t i = 0; i < n; i++) {
    Rec& r = sh->rec[i];
    if (!r.done) c.fail("never made: " + where(i));
    h = mix(h, hash_bytes(in[i].data(), in[i].size()) + r.phase * 64 + r.kind);
    std::string got = r.out_len <= r.out_cap ? std::string(sh->data + r.out, r.out_len) : "";
    if (r.out_len <= r.out_cap && (got == want[i].a || (want[i].either && got == want[i].b))) continue;
    c.fail(where(i) + " gave " + (r.out_len <= r.out_cap ? q(got) : std::to_string(r.out_len) + " bytes") + ", expected " + q(want[i].a));
  }
  c.nontrivial(h);
}
}  // namespace life
int main(int argc, char** argv) {
  if (life::S) return life::child();
  return pbt::engine_main(argc, argv, {{"life", life::run, 20000, 300000}}, "default");
}
