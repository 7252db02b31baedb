// Native runtime of the specification intrinsics: replays solver models and searches for failing inputs on the real compiled code.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <random>
#include <memory>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <setjmp.h>
#include <cfenv>
struct Reject {}; struct Fail { std::string label; double a, b; };
static bool failing = false; static Fail last;
static std::map<std::string, double> fixedv; static bool use_fixed = false; static double jitter = 0;
static std::map<std::string, int> cnt; static std::vector<std::pair<std::string, double>> log_; static std::mt19937_64 rng; static double scale_ = 1;
static std::map<std::string, std::map<std::pair<double,double>, double>> funs; static std::vector<double*> arrs;
static int mode = 0;
static void dump(const char* lab) {
  printf("NATIVE-FAIL label=%s\n", lab);
  for (auto& p : log_) printf("INPUT %s=%.17g\n", p.first.c_str(), p.second);
  fflush(stdout);
}
static std::string nm(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static double draw() {
  switch (rng() % 10) {
    case 0: { static const double s[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, 10, M_PI, M_PI/2, -M_PI/2, 100}; return s[rng() % 13]; }
    case 1: return std::round((U() - 0.5) * 8);
    case 2: return (U() - 0.5) * 200; case 3: return std::pow(10, (U() - 0.5) * 6) * (rng() % 2 ? 1 : -1);
    case 4: return U(); case 5: return U() * 10;
    default: return (U() - 0.5) * 6; }
}
static double rec(const std::string& n, double v) { log_.push_back({n, v}); if (std::fabs(v) > scale_ && std::fabs(v) < 1e6) scale_ = std::fabs(v); return v; }
extern "C" {
double vc_real(const char* n) { auto k = nm(n); double v;
  auto it = fixedv.find(k);
  if (use_fixed && it != fixedv.end() && (jitter == 0 || rng() % 4)) v = it->second + (jitter != 0 && rng() % 2 ? jitter * (U() - 0.5) * (1 + std::fabs(it->second)) : 0); else v = draw();
  if (jitter != 0 && std::fabs(v) < 1e-6) v = 0;
  return rec(k, v); }
double vc_real_in(const char* n, double lo, double hi) { if (!(lo <= hi)) throw Reject(); auto k = nm(n); double v;
  auto it = fixedv.find(k);
  if (use_fixed && it != fixedv.end() && (jitter == 0 || rng() % 4)) v = it->second;
  else if (std::isinf(lo) || std::isinf(hi) || hi - lo > 1e6) { v = draw(); if (v < lo || v > hi) { v = std::fabs(v); v = std::isinf(hi) ? lo + v : std::isinf(lo) ? hi - v : (lo + hi) / 2 + (U() - 0.5) * (hi - lo); } }
  else switch (rng() % 6) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = std::round(lo + U() * (hi - lo)); break; default: v = lo + U() * (hi - lo); }
  if (v < lo) v = lo; if (v > hi) v = hi; return rec(k, v); }
bool vc_bool(const char* n) { auto k = nm(n); auto it = fixedv.find(k); bool v = use_fixed && it != fixedv.end() && (jitter == 0 || rng() % 8) ? it->second != 0 : rng() % 2; log_.push_back({k, (double)v}); return v; }
long vc_int(const char* n) { auto k = nm(n); auto it = fixedv.find(k); long v = use_fixed && it != fixedv.end() && (jitter == 0 || rng() % 8) ? (long)it->second : (rng() % 3 ? (long)(rng() % 6) - 1 : (long)(rng() % 64) - 16); log_.push_back({k, (double)v}); return v; }
long vc_int_in(const char* n, long lo, long hi) { if (lo > hi) throw Reject(); auto k = nm(n); auto it = fixedv.find(k); long w = hi - lo; if (w < 0 || w > 64) w = rng() % 3 ? 4 : 64;
  long v = use_fixed && it != fixedv.end() && (jitter == 0 || rng() % 8) ? (long)it->second : lo + (long)(rng() % (w + 1)); if (v < lo) v = lo; if (v > hi) v = hi; log_.push_back({k, (double)v}); return v; }
int vc_choice(const char* n, int m) { auto k = nm(n); auto it = fixedv.find(k); int v = use_fixed && it != fixedv.end() && (jitter == 0 || rng() % 8) ? (int)it->second : (int)(rng() % m); if (v < 0) v = 0; if (v >= m) v = m - 1; log_.push_back({k, (double)v}); return v; }
void vc_assume(bool b) { if (!b) throw Reject(); }
static void failed(const char* l, double a = 0, double b = 0) { failing = true; last = Fail{l, a, b}; throw last; }
void vc_assert(bool b, const char* l) { if (!b) failed(l); }
static bool close(double a, double b) { double s = std::fmax(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= 1e-6 * s + 1e-7 * scale_ * scale_; }
void vc_eq(double a, double b, const char* l) { if (a == b) return; if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b) || !close(a, b)) failed(l, a, b); }
void vc_le(double a, double b, const char* l) { if (a <= b) return; if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b) || !close(a, b)) failed(l, a, b); }
bool vc_finite(double x) { return std::isfinite(x); }
void vc_cover(const char*) {} void vc_trig_add(double, double) {} void vc_trig_half(double) {}
void vc_stop() { throw Reject(); }
// arbitrary functions: a random smooth member of c0 + c1 x + c2 sin(c3 x + c4) per name (smooth, so that equal arguments up to rounding give equal values)
static double smooth(const char* n, int k, double x) { auto& m = funs[n]; auto it = m.find({(double)k, -1}); if (it == m.end()) it = m.insert({{(double)k, -1}, 0}).first;
  auto par = [&](int j, double def) { auto key = std::make_pair((double)k, (double)j); auto f = m.find(key); if (f == m.end()) f = m.insert({key, def}).first; return f->second; };
  double c0 = par(0, draw()), c1 = par(1, rng() % 2 ? (U() - 0.5) * 4 : 0), c2 = par(2, rng() % 2 ? (U() - 0.5) * 4 : 0), c3 = par(3, U() * 3), c4 = par(4, U() * 6);
  if (std::isnan(x)) return x; return c0 + c1 * x + c2 * std::sin(c3 * x + c4); }
double vc_fun1(const char* n, double x) { return smooth(n, 1, x); }
double vc_fun2(const char* n, double x, double y) { return smooth(n, 2, x) + smooth(n, 3, y) * smooth(n, 4, x); }
double vc_funi(const char* n, long x) { auto& m = funs[n]; auto it = m.find({(double)x, 0}); if (it == m.end()) it = m.insert({{(double)x, 0}, draw()}).first; return it->second; }
double* vc_array(const char* n, long k) { if (k < 0 || k > 1000) throw Reject(); double* p = (double*)malloc(8 * (k ? k : 1)); for (long i = 0; i < k; ++i) p[i] = draw(); arrs.push_back(p); return p; }
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
}
static void death() { dump("memory: crash under the address sanitizer"); }
int main(int c, char** v) {
  // native <harness> <seed> <iters> <seconds> [values-file] [jitter]
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, v[1]);
  if (!h) { fprintf(stderr, "no harness %s\n", v[1]); return 9; }
  long seed = atol(v[2]), n = atol(v[3]); double secs = atof(v[4]);
  if (c > 5 && v[5][0]) { FILE* f = fopen(v[5], "r"); char a[512]; double x; while (f && fscanf(f, "%511s %lf", a, &x) == 2) fixedv[a] = x; if (f) fclose(f); use_fixed = true; }
  if (c > 6) jitter = atof(v[6]);
  if (__asan_set_death_callback) __asan_set_death_callback(death);
  std::set_terminate([] { dump("exception: uncaught exception"); _exit(3); });
  time_t t0 = time(0); long acc = 0, i = 0, noise = 0;
  // one evaluation of the contract on the inputs of iteration i; false: the contract failed (recorded in last)
  auto once = [&](long i) -> bool {
    rng.seed(seed * 1000003 + i); cnt.clear(); log_.clear(); funs.clear(); scale_ = 1; failing = false; bool r = true;
    try { h(); ++acc; } catch (Reject&) { failing = false; } catch (Fail&) {} catch (std::exception& e) { failing = true; last = Fail{std::string("exception: uncaught exception ") + e.what(), 0, 0}; }
    if (failing) r = false;
    for (double* p : arrs) free(p); arrs.clear(); return r;
  };
  for (; i < n && time(0) - t0 < secs; ++i) {
    if (once(i)) continue;
    // a failure counts only if it is not an artefact of rounding: it has to come out the same in every rounding mode
    Fail f = last; bool solid = true; static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    for (int m : modes) {
      fesetround(m); bool ok = once(i); fesetround(FE_TONEAREST);
      if (ok || last.label != f.label) { solid = false; break; }
      double d = std::fabs(f.a - f.b), t = 0.01 * d; bool nf = std::isnan(f.a - f.b) || std::isinf(f.a - f.b);
      if (!nf && (!(std::fabs(last.a - f.a) <= t) || !(std::fabs(last.b - f.b) <= t))) { solid = false; break; }
    }
    if (!solid) { ++noise; continue; }
    once(i); printf("VALUES %.17g vs %.17g\n", f.a, f.b); dump(f.label.c_str()); _exit(3);
  }
  printf("NATIVE-OK iterations=%ld accepted=%ld rounding-noise=%ld\n", i, acc, noise); fflush(stdout);
  _exit(0);
}
