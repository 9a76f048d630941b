// Common driver of the replay / conformance harnesses: runs generated cases
// against the real library in a child process, so that a crash, a sanitizer
// report or a hang is attributed to the case that caused it.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <sstream>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <iomanip>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  int i(int lo, int hi) { return lo + (int)((next() >> 33) % (uint64_t)(hi - lo + 1)); }   // inclusive
  double r(double lo, double hi) { return lo + (hi - lo) * ((next() >> 11) * (1.0 / 9007199254740992.0)); }
  bool b() { return (next() >> 40) & 1; }
  bool chance(int pct) { return i(0, 99) < pct; }
  template <class V> typename V::value_type pick(const V& v) { return v[i(0, (int)v.size() - 1)]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[i(0, (int)k - 1)]); }
};
struct Fail { std::string msg; };
struct Skip {};
extern int case_no;
struct Shared { volatile uint64_t idx, evals, nontrivial; char desc[60000]; char msg[8000]; volatile int failed; };
extern Shared* SH;
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
void desc(const std::string& s);      // appends to the description of the current case
#define CHECK(c, ...) do { if (!(c)) throw Fail{std::string("expected ") + #c + ": " + fmt(__VA_ARGS__)}; } while (0)
#define NONTRIVIAL() (SH->nontrivial++)
void run_case(Rng& g, int size);     // defined by each harness; size grows with the case number
inline bool close_(double a, double b, double t = 1e-7) { return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
// a directory of this run for files the library reads or writes below $HOME
inline std::string scratch() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n < 0) n = 0; b[n] = 0; std::string s(b); s = s.substr(0, s.rfind('/')); setenv("HOME", s.c_str(), 1); return s; }
