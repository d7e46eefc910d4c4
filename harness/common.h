// Shared parts of the executable-contract harnesses (bounded stand-ins and replay).
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <nlohmann/json.hpp>

namespace H {
struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::ostringstream& trace() { static std::ostringstream s; return s; }
inline char* crash_buf() { static char b[400]; return b; }
inline void note(const std::string& s) { trace() << "  " << s << "\n"; }

template <class... A> std::string cat(const A&... a) {
  std::ostringstream s; s.precision(17); ((s << a), ...); return s.str();
}
template <class T> std::string vs(const std::vector<T>& v) {
  std::ostringstream s; s.precision(17); s << "[";
  for (size_t i = 0; i < v.size(); i++) s << (i ? "," : "") << v[i];
  s << "]"; return s.str();
}
#define REQ(c, ...) do { if (!(c)) throw H::Fail(H::cat(__VA_ARGS__)); } while (0)

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s) {}
  uint64_t u() { return g(); }
  int in(int lo, int hi) { return lo + (int)(g() % (uint64_t)(hi - lo + 1)); }  // inclusive
  bool p(int num, int den) { return (int)(g() % den) < num; }
  double unif() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unif(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[g() % v.size()]; }
};

inline bool close(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}

using CaseFn = void (*)(Rng&);
struct Entry { std::string prop, name; CaseFn fn; int weight; };
inline std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
struct Reg { Reg(const char* p, const char* n, CaseFn f, int w) { entries().push_back({p, n, f, w}); } };
// CASE(property, name, weight): weight = number of runs per unit of effort
#define CASE(PROP, NAME, W) static void case_##PROP##_##NAME(H::Rng& r); \
  static H::Reg reg_##PROP##_##NAME(#PROP, #NAME, case_##PROP##_##NAME, W); \
  static void case_##PROP##_##NAME(H::Rng& r)

inline void on_signal(int s) {
  const char* b = crash_buf();
  if (write(1, b, strlen(b))) {}
  const char* m = s == SIGABRT ? "crashed (abort)\n" : s == SIGALRM ? "did not terminate\n" : "crashed (signal)\n";
  if (write(1, m, strlen(m))) {}
  signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); alarm(3);   // the heap may be unusable
  std::string t = trace().str();
  if (write(1, t.data(), t.size())) {}
  _exit(1);
}

// usage: prog PROP SEED EFFORT [NAME INDEX]
inline int run(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: %s PROP SEED EFFORT [NAME INDEX]\n", argv[0]); return 2; }
  std::string prop = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10);
  int effort = atoi(argv[3]);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
  long total = 0; int bad = 0;
  for (auto& e : entries()) {
    if (e.prop != prop) continue;
    if (argc > 4 && e.name != argv[4]) continue;
    int n = e.weight * effort;
    for (int i = 0; i < n; i++) {
      if (argc > 5 && i != atoi(argv[5])) continue;
      uint64_t h = seed * 1000003ull + (uint64_t)i * 7919ull;
      for (char c : e.name) h = h * 131 + c;
      Rng r(h);
      trace().str(""); trace().clear();
      snprintf(crash_buf(), 399, "FAIL %s %s seed=%llu index=%d: ", prop.c_str(), e.name.c_str(), (unsigned long long)seed, i);
      alarm(60);
      std::string msg;
      try { e.fn(r); total++; continue; }
      catch (const Fail& f) { msg = f.what(); }
      catch (const std::exception& f) { msg = std::string("unexpected exception: ") + f.what(); }
      std::string t = trace().str();
      if (t.size() > 20000) t = t.substr(0, 4000) + "  ...\n" + t.substr(t.size() - 12000);
      printf("%s%s\n%s", crash_buf(), msg.c_str(), t.c_str());
      bad = 1; break;
    }
    if (!bad) printf("DONE %s %s cases=%d\n", prop.c_str(), e.name.c_str(), n);
    if (bad) break;
  }
  alarm(0);
  printf("TOTAL %ld\n", total);
  return bad;
}
}  // namespace H
