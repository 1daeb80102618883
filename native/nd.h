// Small framework for native differential checks: every case function draws its
// inputs from a seeded generator, calls the real k2 code and compares with a
// sequential model. A mismatch throws; the harness reports text.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace nd {
struct Mismatch : std::runtime_error { using std::runtime_error::runtime_error; };
struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {}
  int64_t operator()(int64_t lo, int64_t hi) {  // inclusive
    return lo + static_cast<int64_t>(g() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool p(double x) { return (g() >> 11) * (1.0 / 9007199254740992.0) < x; }
  uint64_t bits(int n) { return n >= 64 ? g() : g() & ((uint64_t(1) << n) - 1); }
  int32_t size() {  // sizes with an eye to the edges
    switch ((*this)(0, 9)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return 2;
      case 3: return static_cast<int32_t>(1) << (*this)(2, 9);
      case 4: return (static_cast<int32_t>(1) << (*this)(2, 9)) + (int32_t)(*this)(-1, 1);
      case 5: return (int32_t)(*this)(200, 3000);
      default: return (int32_t)(*this)(1, 40);
    }
  }
};
struct Log {
  std::map<std::string, long> n;
  void operator()(const std::string &k, long c = 1) { n[k] += c; }
};
template <class T> std::string show(const std::vector<T> &v) {
  std::ostringstream o; o << "["; size_t m = std::min<size_t>(v.size(), 24);
  for (size_t i = 0; i < m; i++) o << (i ? "," : "") << +v[i];
  if (m < v.size()) o << ",.. " << v.size() << " in all";
  o << "]"; return o.str();
}
inline void fail(const std::string &what) { throw Mismatch(what); }
template <class T> void same(const std::string &what, const std::vector<T> &got, const std::vector<T> &want) {
  if (got != want) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    std::ostringstream o;
    o << what << ": first difference at " << i << " (sizes " << got.size() << ", model " << want.size()
      << "); got " << show(std::vector<T>(got.begin() + std::min(i, got.size()), got.end())) << " model "
      << show(std::vector<T>(want.begin() + std::min(i, want.size()), want.end()));
    fail(o.str());
  }
}
template <class T> void same1(const std::string &what, const T &got, const T &want) {
  if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << " model " << want; fail(o.str()); }
}
}  // namespace nd

#define ND_ENTRY(FN)                                                            \
  extern "C" int nd_run(uint64_t seed, const char *only, char *out, int cap) {  \
    nd::Rng r(seed); nd::Log log; int rc = 0; std::string msg;                  \
    try { FN(r, log, only ? only : ""); }                                       \
    catch (const nd::Mismatch &e) { rc = 1; msg = e.what(); }                   \
    catch (const std::exception &e) { rc = 2; msg = e.what(); }                 \
    std::ostringstream o;                                                       \
    for (auto &kv : log.n) o << kv.first << "\t" << kv.second << "\n";           \
    if (rc) o << "!\t" << msg << "\n";                                          \
    std::snprintf(out, cap, "%s", o.str().c_str());                             \
    return rc;                                                                  \
  }
