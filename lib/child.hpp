// Runs a piece of a case in a forked child, for state that exists once per process
// (the lazily built tables). The child returns a string; a Fail it throws comes back.
#pragma once
#include <sched.h>

#include "engine.hpp"
namespace pbt {
struct ChildResult { bool ok = false; std::string text, how; };
template <class F>
ChildResult forked(F f, double limit = 20) {
  ChildResult r;
  int pfd[2];
  if (pipe(pfd)) { r.how = "pipe failed"; return r; }
  pid_t pid = -1;
  for (int k = 0; k < 200 && (pid = fork()) < 0; k++) usleep(10000);
  if (pid < 0) { close(pfd[0]); close(pfd[1]); r.ok = true; r.how = "fork failed"; return r; }
  if (pid == 0) {
    close(pfd[0]);
    std::string msg;
    try { msg = "+" + f(); }
    catch (Fail& e) { msg = "-" + e.msg; }
    catch (std::exception& e) { msg = std::string("-unexpected exception ") + e.what(); }
    if (msg.size() > 3500) msg.resize(3500);
    ssize_t k = write(pfd[1], msg.data(), msg.size());
    (void)k;
    _exit(0);
  }
  close(pfd[1]);
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  double t0 = now();
  int st = 0;
  bool timed = false;
  auto drain = [&] { char b[4096]; for (ssize_t n; (n = read(pfd[0], b, sizeof b)) > 0;) r.text.append(b, size_t(n)); };
  for (int spin = 0;; spin++) {
    drain();
    if (waitpid(pid, &st, WNOHANG) == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); timed = true; break; }
    if (spin < 50) sched_yield();
    else usleep(100);
  }
  drain();
  close(pfd[0]);
  if (timed) r.how = "did not finish within " + std::to_string(int(limit)) + " s";
  else if (WIFSIGNALED(st)) r.how = std::string("was killed by signal: ") + strsignal(WTERMSIG(st));
  else if (WEXITSTATUS(st) == 66) r.how = "had a data race (ThreadSanitizer)";
  else if (WEXITSTATUS(st)) r.how = "exited with status " + std::to_string(WEXITSTATUS(st));
  else if (r.text.empty()) r.how = "returned nothing";
  else if (r.text[0] == '-') r.how = r.text.substr(1);
  else r.ok = true;
  if (!r.text.empty()) r.text.erase(0, 1);
  return r;
}
}  // namespace pbt
