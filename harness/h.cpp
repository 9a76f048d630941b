#include "h.hpp"
#include <stdarg.h>
Shared* SH; int case_no;
std::string fmt(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void desc(const std::string& s) {
  size_t n = strlen(SH->desc);
  if (n + s.size() + 2 < sizeof SH->desc) { memcpy(SH->desc + n, s.c_str(), s.size()); SH->desc[n + s.size()] = '\n'; SH->desc[n + s.size() + 1] = 0; }
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static int size_of(uint64_t idx) { int s = 3 + (int)(idx / 40); return s > 60 ? 3 + (int)(idx % 58) : s; }
// returns 0 ok, 1 failed (message in SH)
static int one(uint64_t seed, uint64_t idx) {
  SH->desc[0] = 0; SH->msg[0] = 0; SH->idx = idx; case_no = (int)idx;
  Rng g(seed * 1000003ull + idx);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 20; setitimer(ITIMER_REAL, &tv, 0);
  try { run_case(g, size_of(idx)); SH->evals++; return 0; }
  catch (Skip&) { return 0; }
  catch (Fail& f) { snprintf(SH->msg, sizeof SH->msg, "%s", f.msg.c_str()); }
  catch (std::exception& e) { snprintf(SH->msg, sizeof SH->msg, "unexpected exception: %s", e.what()); }
  catch (...) { snprintf(SH->msg, sizeof SH->msg, "unexpected exception"); }
  return 1;
}
int main(int argc, char** argv) {
  // usage: harness OUT SECONDS SEED [CASE]
  const char* out = argv[1]; double secs = atof(argv[2]); uint64_t seed = strtoull(argv[3], 0, 10);
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(SH, 0, sizeof *SH);
  bool single = argc > 4; uint64_t from = single ? strtoull(argv[4], 0, 10) : 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    freopen("/dev/null", "w", stdout); 
    char ep[1000]; snprintf(ep, sizeof ep, "%s.err", out); freopen(ep, "w", stderr);
    double t0 = now();
    for (uint64_t k = from; ; k++) {
      if (one(seed, k)) _exit(1);
      if (single) _exit(0);
      if (now() - t0 > secs) _exit(0);
      if (k > 400000) _exit(0);
    }
  }
  int st; waitpid(p, &st, 0);
  int failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (failed && !SH->msg[0]) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(SH->msg, sizeof SH->msg, "the call did not return within 20 s");
    else if (WIFSIGNALED(st)) snprintf(SH->msg, sizeof SH->msg, "the process was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(SH->msg, sizeof SH->msg, "the process ended with status %d (memory error report, see %s.err)", WEXITSTATUS(st), out);
  }
  FILE* f = fopen(out, "w");
  fprintf(f, "%s\ncases %llu nontrivial %llu\n", failed ? "FAILED" : "OK", (unsigned long long)SH->evals, (unsigned long long)SH->nontrivial);
  fprintf(f, "seed %llu case %llu\n", (unsigned long long)seed, (unsigned long long)SH->idx);
  fprintf(f, "message: %s\n--- input\n%s", SH->msg, SH->desc);
  fclose(f);
  return failed ? 1 : 0;
}
