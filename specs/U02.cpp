// Numerical integration.
// SOURCES:
// OPTS *: obl_ms=20000
// ASSUMES: the integrand is an arbitrary function of its argument (uninterpreted), or a polynomial with arbitrary coefficients
#include "common.h"
#include "SIREN/utilities/Integration.h"
#include <stdexcept>
using namespace siren::utilities;
static long calls, stop_after;
static double f1(double x) { return vc_fun1("f", x); }
struct F1 { double operator()(double x) const { if(++calls > stop_after) vc_stop(); return f1(x); } };
struct F2 { double operator()(double x, double y) const { if(++calls > stop_after) vc_stop(); return vc_fun2("g", x, y); } };
static double range(double & a, double & b) {
  a = vc_real("a"); b = vc_real("b");
#ifdef VC_NATIVE
  a = std::fmod(a, 3); b = std::fmod(b, 3); vc_assume(std::fabs(a - b) > 1e-3);
#endif
  return b - a;
}
// composite trapezoidal sum with n panels
static double trap(double a, double b, int n) {
  double s = 0.5 * (f1(a) + f1(b)); for(int k = 1; k < n; ++k) s += f1(a + (b - a) * k / n);
  return s * (b - a) / n;
}
//@ TrapezoidalIntegrator: detail n gives the trapezoidal sum with 2^n panels of any function, whatever was computed before
VC_HARNESS(trapezoid_rule) {
  double a, b; range(a, b); stop_after = 1000; calls = 0;
  F1 f; TrapezoidalIntegrator<F1> t(f, a, b);
  int d = vc_choice("detail", 5), first = vc_choice("before", 5);
  if(first < d) vc_eq(t.integrate(first), trap(a, b, 1 << first), "the coarser sum");
  vc_eq(t.integrate(d), trap(a, b, 1 << d), "the trapezoidal sum with 2^n panels");
  vc_assert(calls == 1 + (1 << d), "no more evaluations than needed");
  vc_eq(t.integrate(first < d ? first : d), trap(a, b, 1 << d), "a computed integral is never degraded");
  vc_cover("trapezoidal rule");
}
// exact weights of the extrapolation in h^2 to zero from the estimates with 2^k, ..., 2^(k+n-1) panels
static double extrapolate(double const * T, int n) {
  double r = 0;
  for(int i = 0; i < n; ++i) { double w = 1, hi = std::pow(4.0, -i); for(int j = 0; j < n; ++j) if(j != i) { double hj = std::pow(4.0, -j); w *= hj / (hj - hi); } r += w * T[i]; }
  return r;
}
//@ rombergIntegrate: the result is the extrapolation of five successive trapezoidal sums, and is returned only when it differs from the one of lower order by at most the relative tolerance (first two stages, any function; other limits: trapezoid_rule and the polynomials)
VC_HARNESS(romberg) {
  double a = 0, b = 2; calls = 0; double tol = vc_choice("tol", 2) ? 1.0 / 1024 : 0.125; stop_after = 1 << 21;
#ifndef VC_NATIVE
  stop_after = 33;
#endif
  F1 f; double r = rombergIntegrate(f, a, b, tol);
  int k = 0; while(1 + (1 << (k + 4)) < calls) ++k;
  vc_assert(calls == 1 + (1 << (k + 4)), "evaluated at the nodes of the last sum");
  double T[5]; for(int i = 0; i < 5; ++i) T[i] = trap(a, b, 1 << (k + i));
  vc_eq(r, extrapolate(T, 5), "the extrapolation of the last five sums");
#ifndef VC_NATIVE
  vc_assert(std::fabs(r - extrapolate(T + 1, 4)) <= tol * std::fabs(r) || std::fabs(r - extrapolate(T, 4)) <= tol * std::fabs(r), "returned only when the last order changes it by at most the tolerance");
#endif
  vc_cover("romberg");
}
static double P[8]; static int deg;
static double poly(double x) { double v = 0; for(int k = deg; k >= 0; --k) v = v * x + P[k]; return v; }
struct FP { double operator()(double x) const { return poly(x); } };
static double prim(double x) { double v = 0; for(int k = deg; k >= 0; --k) v = v * x + P[k] / (k + 1); return v * x; }
//@ rombergIntegrate of a polynomial is its integral, for either order of the limits
VC_HARNESS(romberg_polynomial) {
  double a, b; range(a, b); deg = 3;
  static const char* nm[8] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"};
  for(int k = 0; k <= deg; ++k) P[k] = vc_real(nm[k]);
#ifdef VC_NATIVE
  for(int k = 0; k <= deg; ++k) P[k] = std::fmod(P[k], 10); vc_assume(std::fabs(prim(b) - prim(a)) > 1e-3);
#endif
  FP f; vc_eq(rombergIntegrate(f, a, b), prim(b) - prim(a), "the integral of a polynomial");
  vc_cover("romberg polynomial");
}
//@ rombergIntegrate of any power up to seven is its integral between any limits
VC_HARNESS(romberg_power) {
  double a, b; range(a, b); deg = vc_choice("degree", 8);
  for(int k = 0; k < 8; ++k) P[k] = k == deg;
#ifdef VC_NATIVE
  vc_assume(std::fabs(prim(b) - prim(a)) > 1e-2);
#endif
  FP f; vc_eq(rombergIntegrate(f, a, b), prim(b) - prim(a), "the integral of a power");
  vc_cover("romberg power");
}
//@ negative tolerances are refused by both adaptive integrators
VC_HARNESS(tolerance) {
  double a, b; range(a, b); stop_after = 0; calls = 0; double tol = -vc_pos("tol"); bool thrown = false;
  try { if(vc_choice("which", 2)) rombergIntegrate(F1(), a, b, tol); else simpsonIntegrate2D(F2(), a, b, a, b, tol); } catch(std::runtime_error const &) { thrown = true; }
  vc_assert(thrown, "a negative tolerance is refused"); vc_cover("tolerance");
}
static double simpson(double a1, double b1, double a2, double b2, int n, int m) {
  double s = 0;
  for(int i = 0; i <= n; ++i) for(int j = 0; j <= m; ++j)
    s += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * (j == 0 || j == m ? 1 : j % 2 ? 4 : 2) * vc_fun2("g", a1 + (b1 - a1) * i / n, a2 + (b2 - a2) * j / m);
  return s * (b1 - a1) / n * (b2 - a2) / m / 9;
}
//@ simpsonIntegrate2D: the composite Simpson sum of any function of two variables, returned only when it changed by less than the tolerance (first refinement)
VC_HARNESS(simpson2d) {
  double a1 = 0, b1 = 2, a2 = -1, b2 = 3; calls = 0;
  int n = vc_choice("first", 2) ? 2 : 4, m = vc_choice("second", 2) ? 2 : 4; double tol = vc_choice("tol", 2) ? 1.0 / 1024 : 0.125;
#ifdef VC_NATIVE
  stop_after = 1 << 22;
#else
  stop_after = (n + 1) * (m + 1) + (2 * n + 1) * (2 * m + 1);
#endif
  F2 f; double r = simpsonIntegrate2D(f, a1, b1, a2, b2, tol, n, m);
  long c = (n + 1) * (m + 1) + (2 * n + 1) * (2 * m + 1); int k = 2; while(c < calls && k < 4000) { k *= 2; c += (long)(k * n + 1) * (k * m + 1); }
  vc_assert(calls == c, "evaluated on the grids of the sums");
  double S = simpson(a1, b1, a2, b2, k * n, k * m), Q = simpson(a1, b1, a2, b2, k * n / 2, k * m / 2);
  vc_eq(r, S, "the composite Simpson sum");
  double sc = std::fabs(S) > std::fabs(Q) ? std::fabs(S) : std::fabs(Q);
#ifndef VC_NATIVE
  vc_assert(sc < tol * tol || std::fabs(S - Q) <= tol * sc, "returned only when it changed by at most the tolerance");
#endif
  vc_cover("simpson");
}
struct FB { double a, c; int i, j; double operator()(double x, double y) const { double v = 1; for(int k = 0; k < i; ++k) v *= x - a; for(int k = 0; k < j; ++k) v *= y - c; return v; } };
//@ simpsonIntegrate2D of cubic monomials (a basis of the cubic polynomials) is their integral over any rectangle
VC_HARNESS(simpson2d_polynomial) {
  FB f; f.a = vc_real("a"); f.c = vc_real("c"); f.i = vc_choice("i", 4); f.j = vc_choice("j", 4); double w = vc_pos("w"), h = vc_pos("h");
#ifdef VC_NATIVE
  f.a = std::fmod(f.a, 3); f.c = std::fmod(f.c, 3); w = std::fmod(w, 3) + 0.1; h = std::fmod(h, 3) + 0.1;
#endif
  double I = 1; for(int k = 0; k <= f.i; ++k) I *= w; for(int k = 0; k <= f.j; ++k) I *= h; I /= (f.i + 1) * (f.j + 1);
  vc_eq(simpsonIntegrate2D(f, f.a, f.a + w, f.c, f.c + h, 1e-3, 2, 2), I, "the integral of a cubic polynomial");
  vc_cover("simpson polynomial");
}
static std::vector<double> X, Y;
static void table(int n) {
  static const char* xn[5] = {"x0", "x1", "x2", "x3", "x4"}; static const char* yn[5] = {"y0", "y1", "y2", "y3", "y4"};
  X.clear(); Y.clear();
  for(int k = 0; k < n; ++k) { double d = k == 0 ? vc_real(xn[k]) : X[k - 1] + vc_pos(xn[k]); X.push_back(d); Y.push_back(vc_real(yn[k])); }
#ifdef VC_NATIVE
  double s = 0; for(int k = 0; k < n; ++k) { double d = std::fabs(std::fmod(X[k], 1.7)) + 0.05; s = k == 0 ? d : s + d; X[k] = s; Y[k] = std::fmod(Y[k], 10); }
#endif
}
//@ trapezoidIntegrate over a table: the sum of the trapezoids; over a range: the integral of the piecewise linear function over the part of the range covered by the table
VC_HARNESS(table_full) {
  int n = vc_choice("n", 6); table(n);
  double s = 0; for(int k = 1; k < n; ++k) s += (X[k] - X[k - 1]) * (Y[k] + Y[k - 1]) / 2;
  vc_eq(trapezoidIntegrate(X, Y), s, "the sum of the trapezoids");
  if(n >= 2) vc_eq(trapezoidIntegrate(X, Y, X[0], X[n - 1]), s, "the whole range is the whole table");
  bool thrown = false; Y.push_back(0);
  try { if(vc_choice("range", 2)) trapezoidIntegrate(X, Y); else trapezoidIntegrate(X, Y, 0, 1); } catch(std::runtime_error const &) { thrown = true; }
  vc_assert(thrown, "nodes and values must match");
  vc_cover("table");
}
static double lin(int i, double t) { return Y[i - 1] + (Y[i] - Y[i - 1]) * (t - X[i - 1]) / (X[i] - X[i - 1]); }
static void partial(int n) {
  table(n);
  double a = vc_real("a"), b = vc_real("b"); 
#ifdef VC_NATIVE
  a = std::fmod(a, 6); b = std::fmod(b, 6); if(a > b) { double t = a; a = b; b = t; }
  if(n > 1 && vc_choice("at", 4) == 0) a = X[1];
#endif
  vc_assume(a <= b);
  double s = 0;
  for(int i = 1; i < n; ++i) { double l = X[i - 1] < a ? a : X[i - 1], r = X[i] > b ? b : X[i]; if(l < r) s += (lin(i, l) + lin(i, r)) / 2 * (r - l); }
  vc_eq(trapezoidIntegrate(X, Y, a, b), s, "the integral over the covered part of the range");
}
//@ trapezoidIntegrate over a range: tables of up to two nodes
VC_HARNESS(table_range2) { partial(vc_choice("n", 3)); vc_cover("table range"); }
//@ trapezoidIntegrate over a range: tables of three nodes
VC_HARNESS(table_range3) { partial(3); vc_cover("table range"); }
//@ trapezoidIntegrate over a range: tables of four nodes
VC_HARNESS(table_range4) { partial(4); vc_cover("table range"); }
//@ trapezoidIntegrate over a range: tables of five nodes
VC_HARNESS(table_range5) { partial(5); vc_cover("table range"); }
