// Tabulated interpolation.
// SOURCES: projects/utilities/private/Interpolator.cxx
#include "common.h"
#include "SIREN/utilities/Interpolator.h"
#include <limits>
using namespace siren::utilities;
static const int N = 3;
struct Tab { double x[3]; double f[3]; int perm; };
// nodes: 0 = equidistant, 1 = equidistant in the logarithm, 2 = neither (by more than the tolerance 1e-4 of the spacing)
static void nodes(int kind, const char* n0, const char* n1, const char* n2, double* x) {
  if(kind == 0) { double a = vc_real(n0), d = vc_pos(n1); vc_assume(a <= 0); x[0] = a; x[1] = a + d; x[2] = a + 2 * d; }
  else if(kind == 1) { double a = vc_pos(n0), r = 1 + vc_pos(n1); x[0] = a; x[1] = a * r; x[2] = a * r * r; }
  else {
    double a = vc_pos(n0), d = vc_pos(n1), e = vc_pos(n2); x[0] = a; x[1] = a + d; x[2] = a + d + e;
    vc_assume(d - e > 2e-4 * (d + e) || e - d > 2e-4 * (d + e));
    double l0 = std::log(x[0]), l1 = std::log(x[1]), l2 = std::log(x[2]);
    vc_assume(2 * l1 - l0 - l2 > 2e-4 * (l2 - l0) || l0 + l2 - 2 * l1 > 2e-4 * (l2 - l0));
  }
#ifdef VC_NATIVE
  vc_assume(std::fabs(x[0]) < 1e3 && x[1] - x[0] > 1e-3 && x[2] - x[1] > 1e-3 && x[2] < 1e6);
  if(kind) vc_assume(x[0] > 1e-3 && x[1] / x[0] > 1.001 && x[2] / x[1] > 1.001);
#endif
}
static double any_f(const char* n) { return vc_choice(n, 2) ? 0.0 : vc_pos(n); }
// value of a table with nodes x and values f in the bin i
static double lin(double x, double xa, double xb, double fa, double fb) { return fa + (fb - fa) * (x - xa) / (xb - xa); }
static double spec1(bool lg, double x, double xa, double xb, double fa, double fb) {
  if(!lg || fa == 0 || fb == 0) return lin(x, xa, xb, fa, fb);
  return std::exp(std::log(fa) + (std::log(fb) - std::log(fa)) * (std::log(x) - std::log(xa)) / (std::log(xb) - std::log(xa)));
}
static void table1(TableData1D<double> & t, double const * x, double const * f, int perm) {
  static const int P[3][3] = {{0, 1, 2}, {2, 0, 1}, {1, 0, 2}};
  for(int k = 0; k < 3; ++k) { t.x.push_back(x[P[perm][k]]); t.f.push_back(f[P[perm][k]]); }
}
static void one_dim(int kind, int where) {
  double x[3], f[3]; nodes(kind, "a", "d", "e", x);
  int b = where == 0 ? vc_choice("node", 3) : vc_choice("bin", 2);
  for(int k = 0; k < 3; ++k) f[k] = k == b || (where && k == b + 1) ? any_f(k == b ? "fa" : "fb") : vc_pos(k == 0 ? "f0" : k == 1 ? "f1" : "f2");
  int perm = vc_choice("order", 3);
  TableData1D<double> t; table1(t, x, f, perm);
  Interpolator1D<double> A(t); Interpolator1D<double> B(A);          // a copy is as good as the original
  Interpolator1D<double> const & I = perm ? B : A;
  if(kind < 2) vc_assert(I.IsLog() == (kind == 1), "the scale is that in which the nodes are equidistant");
  vc_eq(I.MinX(), x[0], "first node"); vc_eq(I.MaxX(), x[2], "last node"); vc_eq(I.RangeX(), x[2] - x[0], "range");
  if(where == 0) { vc_eq(I(x[b]), f[b], "the table values are reproduced at the nodes"); vc_cover("table"); return; }
  double xa = x[b], xb = x[b + 1], fa = f[b], fb = f[b + 1];
  double q;
  if(where == 1) { q = vc_range("q", xa, xb); vc_assume(q > xa && q < xb);
    if(kind == 1) {       // lemma: the logarithm is monotonic
      double L = std::log(q), la = std::log(x[0]), lr = std::log(x[1] / x[0]), t = (L - la) / lr;
      vc_assert(lr > 0, "log of the ratio"); vc_assert(std::log(xa) < L && L < std::log(xb), "log of the point"); vc_assert(b * lr < L - la && L - la < (b + 1) * lr, "bin of the log of the point");
      vc_assert(t > b && t < b + 1, "bin of the point");
    }
  }
  else { double o = vc_pos("o"); q = b ? x[2] + o : x[0] - o; if(I.IsLog()) vc_assume(q > 0); }
#ifdef VC_NATIVE
  vc_assume(std::fabs(q) < 1e6);
  if(I.IsLog()) vc_assume(q > 1e-4);
#endif
  double r = I(q), e = spec1(I.IsLog(), q, xa, xb, fa, fb);
  if(where == 1) vc_eq(r, e, "between nodes the value interpolates the two neighbours (log-log for logarithmic tables)");
  else { vc_eq(r, e < 0 ? 0.0 : e, "beyond the table the nearest bin is continued, never below zero"); }
  vc_cover("table");
}
//@ Interpolator1D on equidistant nodes: scale, range and table values
VC_HARNESS(regular_nodes) { one_dim(0, 0); }
//@ Interpolator1D on equidistant nodes, between nodes
VC_HARNESS(regular_between) { one_dim(0, 1); }
//@ Interpolator1D on equidistant nodes, beyond the table
VC_HARNESS(regular_beyond) { one_dim(0, 2); }
//@ Interpolator1D on logarithmically equidistant nodes: scale, range and table values
VC_HARNESS(log_nodes) { one_dim(1, 0); }
//@ Interpolator1D on logarithmically equidistant nodes, between nodes
VC_HARNESS(log_between) { one_dim(1, 1); }
//@ Interpolator1D on logarithmically equidistant nodes, beyond the table
VC_HARNESS(log_beyond) { one_dim(1, 2); }
//@ Interpolator1D on irregular nodes: scale, range and table values
VC_HARNESS(irregular_nodes) { one_dim(2, 0); }
//@ Interpolator1D on irregular nodes, between nodes
VC_HARNESS(irregular_between) { one_dim(2, 1); }
//@ Interpolator1D on irregular nodes, beyond the table
VC_HARNESS(irregular_beyond) { one_dim(2, 2); }
// ------------------------------------------------------------------------------------------------ two dimensions
static double frac(bool lg, double x, double xa, double xb) { return lg ? (std::log(x) - std::log(xa)) / (std::log(xb) - std::log(xa)) : (x - xa) / (xb - xa); }
static void two_dim(int kx, int ky, bool at_node) {
  double x[3], y[2]; nodes(kx, "a", "d", "e", x);
  if(ky == 0) { double a = vc_real("ya"), d = vc_pos("yd"); vc_assume(a <= 0); y[0] = a; y[1] = a + d; }
  else { double a = vc_pos("ya"), r = 1 + vc_pos("yd"); y[0] = a; y[1] = a * r; }
#ifdef VC_NATIVE
  vc_assume(std::fabs(y[0]) < 1e3 && y[1] - y[0] > 1e-3 && y[1] < 1e6);
  if(ky) vc_assume(y[0] > 1e-3 && y[1] / y[0] > 1.001);
#endif
  int b = vc_choice("bin", 2);
  double f[3][2];
  int zero = vc_choice("zero", 5);            // one of the corners of the bin, or none
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 2; ++j) {
    static const char* nm[3][2] = {{"f00", "f01"}, {"f10", "f11"}, {"f20", "f21"}};
    f[i][j] = zero < 4 && i == b + zero / 2 && j == zero % 2 ? 0.0 : vc_pos(nm[i][j]);
#ifdef VC_NATIVE
    vc_assume(f[i][j] < 1e6 && (f[i][j] == 0 || f[i][j] > 1e-6));
#endif
  }
  TableData2D<double> t; bool ymajor = vc_choice("order", 2);
  for(int k = 0; k < 6; ++k) { int i = ymajor ? k % 3 : 2 - k / 2, j = ymajor ? k / 3 : k % 2; t.x.push_back(x[i]); t.y.push_back(y[j]); t.f.push_back(f[i][j]); }
  Interpolator2D<double> A(t); Interpolator2D<double> B(A);
  Interpolator2D<double> const & I = ymajor ? B : A;
  if(kx < 2) vc_assert(I.IsLogX() == (kx == 1), "the x scale is that in which the nodes are equidistant");
  vc_assert(I.IsLogY() == (ky == 1), "the y scale is that in which the nodes are equidistant");
  vc_eq(I.MinX(), x[0], "first x node"); vc_eq(I.MaxX(), x[2], "last x node"); vc_eq(I.RangeX(), x[2] - x[0], "x range");
  vc_eq(I.MinY(), y[0], "first y node"); vc_eq(I.MaxY(), y[1], "last y node"); vc_eq(I.RangeY(), y[1] - y[0], "y range");
  if(at_node) { int i = b + vc_choice("i", 2), j = vc_choice("j", 2); vc_eq(I(x[i], y[j]), f[i][j], "the table values are reproduced at the nodes"); vc_cover("table"); return; }
  double p = vc_range("p", x[b], x[b + 1]), q = vc_range("q", y[0], y[1]); vc_assume(x[b] < p && p < x[b + 1] && y[0] < q && q < y[1]);
  if(I.IsLogX()) { double L = std::log(p); vc_assert(std::log(x[b]) < L && L < std::log(x[b + 1]), "log of the point"); 
    if(kx == 1) { double la = std::log(x[0]), lr = std::log(x[1] / x[0]), u = (L - la) / lr; vc_assert(lr > 0, "log of the ratio"); vc_assert(b * lr < L - la && L - la < (b + 1) * lr, "bin of the log of the point"); vc_assert(u > b && u < b + 1, "bin of the point"); } }
  if(I.IsLogY()) { double L = std::log(q), la = std::log(y[0]), lb = std::log(y[1]); vc_assert(la < L && L < lb, "log of y"); double u = (L - la) / (lb - la); vc_assert(u > 0 && u < 1, "bin of y"); }
  bool lg = (I.IsLogX() || I.IsLogY()) && zero == 4;
  double s = frac(I.IsLogX() && lg, p, x[b], x[b + 1]), v = frac(I.IsLogY() && lg, q, y[0], y[1]);
  double r = I(p, q);
  if(lg) vc_eq(r, std::exp((1 - s) * (1 - v) * std::log(f[b][0]) + (1 - s) * v * std::log(f[b][1]) + s * (1 - v) * std::log(f[b + 1][0]) + s * v * std::log(f[b + 1][1])), "logarithmic tables interpolate the logarithm of the value");
  else vc_eq(r, (1 - s) * (1 - v) * f[b][0] + (1 - s) * v * f[b][1] + s * (1 - v) * f[b + 1][0] + s * v * f[b + 1][1], "otherwise the value is bilinear in the bin");
  vc_cover("table");
}
//@ Interpolator2D, linear axes: nodes
VC_HARNESS(lin_lin_nodes) { two_dim(0, 0, true); }
//@ Interpolator2D, linear axes: inside a bin
VC_HARNESS(lin_lin_inside) { two_dim(0, 0, false); }
//@ Interpolator2D, logarithmic x: nodes
VC_HARNESS(log_lin_nodes) { two_dim(1, 0, true); }
//@ Interpolator2D, logarithmic x: inside a bin
VC_HARNESS(log_lin_inside) { two_dim(1, 0, false); }
//@ Interpolator2D, logarithmic y: nodes
VC_HARNESS(lin_log_nodes) { two_dim(0, 1, true); }
//@ Interpolator2D, logarithmic y: inside a bin
VC_HARNESS(lin_log_inside) { two_dim(0, 1, false); }
//@ Interpolator2D, logarithmic axes: nodes
VC_HARNESS(log_log_nodes) { two_dim(1, 1, true); }
//@ Interpolator2D, logarithmic axes: inside a bin
VC_HARNESS(log_log_inside) { two_dim(1, 1, false); }
//@ Interpolator2D, irregular x: nodes
VC_HARNESS(irr_lin_nodes) { two_dim(2, 0, true); }
//@ Interpolator2D, irregular x: inside a bin
VC_HARNESS(irr_lin_inside) { two_dim(2, 0, false); }
// ------------------------------------------------------------------------------------------------ comparison
//@ Tables and interpolators are equal exactly when their data agree and are totally ordered
VC_HARNESS(comparison) {
  double a[4], b[4]; static const char* na[4] = {"a0", "a1", "a2", "a3"}; static const char* nb[4] = {"b0", "b1", "b2", "b3"};
  for(int k = 0; k < 4; ++k) { a[k] = vc_pos(na[k]); b[k] = vc_choice(nb[k], 2) ? vc_pos(nb[k]) : a[k]; }
  vc_assume(a[0] < a[1] && b[0] < b[1]);
  TableData1D<double> s, t; s.x = {a[0], a[1]}; s.f = {a[2], a[3]}; t.x = {b[0], b[1]}; t.f = {b[2], b[3]};
  bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3];
  vc_assert((s == t) == same, "tables are equal exactly when their data agree");
  vc_assert(int(s == t) + int(s < t) + int(t < s) == 1, "exactly one of equal, less, greater");
  Interpolator1D<double> S(s), T(t);
  vc_assert((S == T) == same, "interpolators are equal exactly when their tables agree");
  vc_assert(int(S == T) + int(S < T) + int(T < S) == 1, "exactly one of equal, less, greater (interpolators)");
  vc_cover("comparison");
}
