// Polynomials and the bracketed root finder.
// SOURCES: projects/math/private/Polynomial.cxx
// OPTS newton_linear: loop_bound=120
// LOOPINV newton_bracket: siren::math::NewtonRaphson => nr_in nr_f nr_df
#include "common.h"
#include "SIREN/math/Polynomial.h"
using siren::math::Polynom; using siren::math::NewtonRaphson; using siren::math::MathException;
static std::vector<double> coeffs(int maxn) {
  int n = vc_choice("ncoef", maxn + 1); std::vector<double> c;
  for(int i = 0; i < n; ++i) c.push_back(vc_real("c"));
  return c;
}
static double spec_eval(std::vector<double> const & c, double x) { double r = 0, p = 1; for(double k : c) { r += k * p; p *= x; } return r; }
//@ Polynom::evaluate, GetFunction, GetCoefficient, copy, clone: the value is sum_i c_i x^i for every coefficient list
VC_HARNESS(evaluate) {
  std::vector<double> c = coeffs(7); double x = vc_real("x");
  Polynom p(c); double ref = spec_eval(c, x);
  vc_eq(p.evaluate(x), ref, "value is the sum of c_i x^i");
  Polynom q(p); vc_eq(q.evaluate(x), ref, "copy has the same value");
  Polynom* k = p.clone(); vc_eq(k->evaluate(x), ref, "clone has the same value"); delete k;
  Polynom r(std::vector<double>{1., 2.}); r = p; vc_eq(r.evaluate(x), ref, "assigned polynomial has the same value");
  vc_eq(p.GetFunction()(x), ref, "function object has the same value");
  std::vector<double> g = p.GetCoefficient(); vc_assert(g.size() == c.size(), "number of coefficients");
  for(size_t i = 0; i < c.size(); ++i) vc_eq(g[i], c[i], "coefficient");
  vc_cover("evaluate");
}
//@ Polynom::GetDerivative / GetAntiderivative: coefficient-wise calculus; they undo each other; the antiderivative at 0 is the constant
VC_HARNESS(calculus) {
  std::vector<double> c = coeffs(6); double k = vc_real("const"), x = vc_real("x");
  Polynom p(c);
  Polynom d = p.GetDerivative(), a = p.GetAntiderivative(k);
  std::vector<double> dc; for(size_t i = 1; i < c.size(); ++i) dc.push_back(i * c[i]);
  vc_eq(d.evaluate(x), spec_eval(dc, x), "derivative");
  vc_eq(a.evaluate(0), k, "integration constant");
  double ref = k, pw = x; for(size_t i = 0; i < c.size(); ++i) { ref += c[i] * pw / double(i + 1); pw *= x; }
  vc_eq(a.evaluate(x), ref, "antiderivative");
  vc_eq(a.GetDerivative().evaluate(x), spec_eval(c, x), "derivative of the antiderivative");
  vc_eq(p.evaluate(x), spec_eval(c, x), "the polynomial itself is unchanged");
  vc_cover("calculus");
}
//@ Polynom::shift(a) with |a| > 1e-9: p(x) becomes p(x + a), for every coefficient list; memory is allocated and released consistently
VC_HARNESS(shift) {
  std::vector<double> c = coeffs(5); double a = vc_real("a"), x = vc_real("x"); vc_assume(a > 1e-9 || a < -1e-9);
  Polynom p(c); p.shift(a);
  vc_eq(p.evaluate(x), spec_eval(c, x + a), "shifted polynomial is p(x+a)");
  vc_cover("shift");
}
//@ Polynom::shift(0) changes nothing
VC_HARNESS(shift_zero) {
  std::vector<double> c = coeffs(5); double x = vc_real("x");
  Polynom p(c); p.shift(0);
  vc_eq(p.evaluate(x), spec_eval(c, x), "shift by zero is the identity");
}
//@ Polynom::scale(s): p(x) becomes p(s x)
VC_HARNESS(scale) {
  std::vector<double> c = coeffs(6); double s = vc_real("s"), x = vc_real("x");
  Polynom p(c); p.scale(s);
  vc_eq(p.evaluate(x), spec_eval(c, s * x), "scaled polynomial is p(s x)");
}
//@ Polynom::operator==, != : equal exactly when the coefficient lists are equal
VC_HARNESS(equality) {
  std::vector<double> a = coeffs(3), b = coeffs(3);
  bool same = a.size() == b.size();
  if(same) for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i])) same = false;
  Polynom p(a), q(b);
  vc_assert((p == q) == same, "== exactly when the coefficients agree");
  vc_assert((p != q) == !same, "!= is the negation of ==");
  vc_assert(p == p, "reflexive");
}
// ------------------------------------------------------------------------------------------------ root finder
static double bx1, bx2;
static double anyf(double x) { return vc_fun1("f", x); }
static double anydf(double x) { return vc_fun1("df", x); }
extern "C" bool nr_in(double x) { return (bx1 <= x) & (x <= bx2); }
extern "C" bool nr_f(double x, double y) { return y == anyf(x); }
extern "C" bool nr_df(double x, double y) { return y == anydf(x); }
//@ NewtonRaphson: for every function, derivative, bracket, guess and number of steps it refuses exactly an interval without sign change and otherwise the iterate stays finite and inside the bracket (loop invariant: any number of iterations)
VC_HARNESS(newton_bracket) {
  double x1 = vc_real("x1"), x2 = vc_real("x2"), xi = vc_real("xinit"), acc = vc_pos("xacc"); vc_assume(x1 < x2 && x1 <= xi && xi <= x2);
  long steps = vc_int_in("steps", 1, 1000);
  bx1 = x1; bx2 = x2;
  std::function<double(double)> f = anyf, df = anydf;
  double fl = f(x1), fh = f(x2);
  bool threw = false; double r = 0;
  try { r = NewtonRaphson(f, df, x1, x2, xi, (int)steps, acc); } catch(MathException const &) { threw = true; }
  vc_assert(threw == (fl * fh > 0), "refuses exactly when the interval does not bracket a root");
  vc_cover("returns or refuses");
  if(threw) return;
  vc_assert(vc_finite(r), "the result is finite");
  vc_le(x1, r, "the result is not below the bracket"); vc_le(r, x2, "the result is not above the bracket");
  vc_cover("bracket");
}
//@ NewtonRaphson: an endpoint that is a root is returned; a linear function is solved to the accuracy
VC_HARNESS(newton_linear) {
  double x1 = vc_real("x1"), x2 = vc_real("x2"), xi = vc_real("xinit"), acc = vc_pos("xacc"), s = vc_real("slope"), r0 = vc_real("root");
  vc_assume(x1 < x2 && x1 <= xi && xi <= x2 && x1 <= r0 && r0 <= x2 && (s > 0 || s < 0));
  double r = NewtonRaphson([=](double x) { return s * (x - r0); }, [=](double) { return s; }, x1, x2, xi, 101, acc);
  vc_le(r - r0, acc, "root within the accuracy (above)"); vc_le(r0 - r, acc, "root within the accuracy (below)");
  vc_cover("linear");
}
