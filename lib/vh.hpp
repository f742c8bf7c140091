// Minimal runtime-monitor harness used by every check in /verif.
// A harness binary is a set of GROUPs.  Each group runs in its own forked child (so a sanitizer abort, an
// uncaught exception or a hang is attributed to one group and does not hide the others) with its own
// deterministic PRNG stream derived from (seed, group name).  A group drives the real code of /repo and feeds
// what it observes to named monitors; every comparison a monitor makes is counted.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef VH_MULT
#define VH_MULT 1   // how often the quick case counts are multiplied (set per build)
#endif
#include <algorithm>
namespace vh {

inline uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(mix(x)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  double u01() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int    in(int a, int b) { return a + (int)(u64() % (uint64_t)(b - a + 1)); }   // inclusive
  int    num(int hi, int big = 300) { return coin(0.03) ? in(hi + 1, big) : in(1, hi); }   // usually small, now and then large
  bool   coin(double p = 0.5) { return u01() < p; }
  double sgn() { return coin() ? 1.0 : -1.0; }
  // magnitude-diverse nonzero real
  double real() { switch (in(0, 5)) { case 0: return sgn() * std::pow(10.0, uni(-4, 4)); case 1: return (double)in(-3, 3);
    default: return uni(-2, 2); } }
  double nz() { double x; do { x = real(); } while (std::fabs(x) < 1e-3); return x; }
  double pos() { return coin(0.3) ? std::pow(10.0, uni(-3, 3)) : uni(0.1, 3.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
};

struct Ctx {
  std::string group; uint64_t seed; bool thorough; FILE* out;
  Rng rng;
  long evals = 0, events = 0; std::set<uint64_t> distinct;
  std::map<std::string, long> monitors, failures; std::vector<std::string> samples;
  std::map<std::string, std::string> first_fail;
  std::map<std::string, double> maxerr;
  int  n(int quick, int thor) const { return thorough ? std::max(thor, quick * VH_MULT) : quick * VH_MULT; }
  uint64_t curcase = 0; std::string curdesc;

  // Announce one generated case.  desc identifies the input; nontrivial by the rule of the check.
  void begin(const std::string& desc, bool nontrivial = true) {
    ++evals; curcase = evals; curdesc = desc;
    if (nontrivial) distinct.insert(hstr(desc));
    if (samples.size() < 3 && nontrivial) samples.push_back(desc.substr(0, 300));
  }
  static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
  void fail(const std::string& key, const std::string& detail) {
    if (++failures[key] == 1) {
      first_fail[key] = detail;
      fprintf(out, "{\"t\":\"fail\",\"key\":\"%s\",\"group\":\"%s\",\"case\":%llu,\"input\":\"%s\",\"detail\":\"%s\"}\n", esc(key).c_str(), esc(group).c_str(),
              (unsigned long long)curcase, esc(curdesc.substr(0, 2000)).c_str(), esc(detail.substr(0, 2000)).c_str());
      fflush(out);
    }
  }
  bool check(bool ok, const std::string& key, const std::string& detail = "") { ++events; ++monitors[key]; if (!ok) fail(key, detail); return ok; }
  static bool close_(double got, double want, double rtol, double atol) {
    if (std::isnan(got) || std::isnan(want)) return false;
    if (std::isinf(got) || std::isinf(want)) return got == want;
    return std::fabs(got - want) <= atol + rtol * std::max(std::fabs(got), std::fabs(want));
  }
  // scale: magnitude of the terms that were summed to form the value (absolute slack = rtol*scale)
  bool close(double got, double want, const std::string& key, double scale = 0, double rtol = 1e-9, const std::string& what = "") {
    bool ok = close_(got, want, rtol, rtol * scale + 1e-280);
    ++events; ++monitors[key];
    if (!ok) { char b[256]; snprintf(b, 256, "observed %.17g expected %.17g (scale %.3g) ", got, want, scale); fail(key, std::string(b) + what); }
    return ok;
  }
  // The call must throw (any exception), the exception being the product's way of rejecting an input.
  template <class F> bool rejects(F&& f, const std::string& key, const std::string& what = "") {
    bool threw = false; try { f(); } catch (const std::exception& e) { threw = true;
      if (strstr(e.what(), "View bounds error")) { check(false, key + "-out-of-bounds", std::string(e.what()).substr(0, 200)); return false; } } catch (...) { threw = true; }
    return check(threw, key, "call was accepted without an error: " + what);
  }
  template <class F> bool accepts(F&& f, const std::string& key, const std::string& what = "") {
    std::string msg; bool threw = false; try { f(); } catch (const std::exception& e) { threw = true; msg = e.what(); } catch (...) { threw = true; }
    return check(!threw, key, "unexpected exception: " + msg.substr(0, 300) + " " + what);
  }
};

struct GroupDef { std::string name; std::function<void(Ctx&)> fn; };
inline std::vector<GroupDef>& groups() { static std::vector<GroupDef> g; return g; }
struct Reg { Reg(const char* n, std::function<void(Ctx&)> f) { groups().push_back({n, f}); } };
#define VH_GROUP(NAME) static void vh_fn_##NAME(vh::Ctx&); static vh::Reg vh_reg_##NAME(#NAME, vh_fn_##NAME); static void vh_fn_##NAME(vh::Ctx& c)

template <class... A> std::string str(A&&... a) { std::ostringstream o; o.precision(17); int x[] = {0, ((o << a), 0)...}; (void)x; return o.str(); }
inline std::string vec(const std::vector<double>& v) { std::ostringstream o; o.precision(6); o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
} // namespace vh
