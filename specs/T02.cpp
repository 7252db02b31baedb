// Column depth through a material: line integrals of the density and their inverse.
// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Polynomial.cxx projects/detector/private/Axis1D.cxx projects/detector/private/CartesianAxis1D.cxx projects/detector/private/RadialAxis1D.cxx projects/detector/private/Distribution1D.cxx projects/detector/private/ConstantDistribution1D.cxx projects/detector/private/ExponentialDistribution1D.cxx projects/detector/private/PolynomialDistribution1D.cxx projects/detector/private/DensityDistribution.cxx projects/detector/private/DensityDistribution1D.cxx projects/detector/private/CartesianAxisDensityDistribution.cxx projects/detector/private/ConstantDensityDistribution.cxx projects/detector/private/CartesianAxisExponentialDensityDistribution.cxx projects/detector/private/CartesianAxisPolynomialDensityDistribution.cxx
// REPLACE: siren::math::NewtonRaphson(std::function<double (double)>, std::function<double (double)>, double, double, double, int, double) => stub_newton
// REPLACE: ~^double siren::utilities::rombergIntegrate<.*> => stub_romberg
// ASSUMES: NewtonRaphson is used through its contract (refuses an interval without sign change, otherwise returns a root in it; see M04)
// ASSUMES: rombergIntegrate is used through its contract (the integral of the function over the interval; see U02), so integrals are exact and not subject to its tolerance
#include "common.h"
#include <functional>
#include <memory>
#include "SIREN/math/Polynomial.h"
#include "SIREN/detector/CartesianAxis1D.h"
#include "SIREN/detector/RadialAxis1D.h"
#include "SIREN/detector/ConstantDistribution1D.h"
#include "SIREN/detector/ExponentialDistribution1D.h"
#include "SIREN/detector/PolynomialDistribution1D.h"
#include "SIREN/detector/CartesianAxisDensityDistribution.h"
#include "SIREN/detector/CartesianAxisExponentialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/DensityDistribution1D.h"
using namespace siren::detector; using siren::math::Vector3D; using siren::math::MathException;
static double dot(Vector3D const & a, Vector3D const & b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
static Vector3D anyv(const char* n) { return Vector3D(vc_real((std::string(n) + "x").c_str()), vc_real((std::string(n) + "y").c_str()), vc_real((std::string(n) + "z").c_str())); }
static Vector3D unitv() { double x = vc_real("dx"), y = vc_real("dy"), z = vc_real("dz");
#ifdef VC_NATIVE
  double m = std::sqrt(x * x + y * y + z * z); vc_assume(m > 0); x /= m; y /= m; z /= m;
#else
  vc_assume(x * x + y * y + z * z == 1);
#endif
  return Vector3D(x, y, z); }
// ---- an arbitrary density profile: rho >= 0 with antiderivative G and derivative D
struct Any : Distribution1D {
  double k[3] = {0, 0, 1}; int id = 0;
  Any() {} Any(int) {
#ifdef VC_NATIVE
    k[0] = std::fabs(vc_real("k0")) + 0.01; k[1] = std::fabs(vc_real("k1")); k[2] = vc_range("k2", 0.1, 3);
#endif
  }
  bool compare(Distribution1D const & d) const override { Any const * a = dynamic_cast<Any const *>(&d); return a && a->id == id; }
  Distribution1D* clone() const override { return new Any(*this); }
  std::shared_ptr<Distribution1D> create() const override { return std::make_shared<Any>(*this); }
#ifdef VC_NATIVE
  double Evaluate(double x) const override { return k[0] + k[1] * (1 + std::sin(k[2] * x)); }
  double AntiDerivative(double x) const override { return (k[0] + k[1]) * x - k[1] * std::cos(k[2] * x) / k[2]; }
  double Derivative(double x) const override { return k[1] * k[2] * std::cos(k[2] * x); }
#else
  double Evaluate(double x) const override { return vc_fun1("rho", x); }
  double AntiDerivative(double x) const override { return vc_fun1("G", x); }
  double Derivative(double x) const override { return vc_fun1("D", x); }
#endif
};
typedef DensityDistribution1D<CartesianAxis1D, Any> Cart;
typedef DensityDistribution1D<RadialAxis1D, Any> Rad;
typedef DensityDistribution1D<CartesianAxis1D, ConstantDistribution1D> Const;
#ifdef VC_NATIVE
static void near(double a, double b, double scale, const char* l) { vc_le(std::fabs(a - b), (scale == 1 ? 1e-2 : 1e-4) * (std::fabs(b) + scale) + 1e-5, l); }
#else
static void near(double a, double b, double, const char* l) { vc_eq(a, b, l); }
#endif
// ---- callee contracts
static double (*line_density)(double) = nullptr;
extern "C" double stub_newton(std::function<double(double)> f, std::function<double(double)> df, double x1, double x2, double x0, int, double) {
  double fl = f(x1), fh = f(x2);
  if(fl * fh > 0) throw MathException("not bracketed");
  double r = vc_real("root"); vc_assume((x1 <= r && r <= x2) || (x2 <= r && r <= x1));
  vc_assume(f(r) == 0);
  return r;
}
extern "C" double stub_romberg(std::function<double(double)> const & f, double a, double b, double tol) {
  double t = vc_real("t");      // any point of the line: the integrand must be the density there
  vc_assert(f(t) == line_density(t), "the integrand is the density at every point of the line");
  return vc_fun1("J", b) - vc_fun1("J", a);
}
// keeps the contract stubs in the module
extern "C" __attribute__((used)) void* keep_stubs[] = {(void*)stub_newton, (void*)stub_romberg};

//@ ConstantDensityDistribution: column depth is density times length, in both forms, additive; derivative zero; antiderivative differences agree
VC_HARNESS(constant_integral) {
  double rho = vc_real("rho"), L = vc_real("L"), M = vc_real("M"); Vector3D x = anyv("x"), d = unitv(), y = anyv("y");
  Const c(rho);
  vc_eq(c.Evaluate(x), rho, "density"); vc_eq(c.Derivative(x, d), 0, "derivative");
  vc_eq(c.Integral(x, d, L), rho * L, "column depth over a length");
  double I = c.Integral(x, y); double q = sq(x.GetX() - y.GetX()) + sq(x.GetY() - y.GetY()) + sq(x.GetZ() - y.GetZ());
  vc_eq(I * I, rho * rho * q, "column depth between two points"); vc_le(0, I * rho, "sign of the column depth");
  vc_eq(c.Integral(x, d, L) + c.Integral(x + d * L, d, M), c.Integral(x, d, L + M), "additive");
  vc_eq(c.AntiDerivative(x + d * L, d) - c.AntiDerivative(x, d), rho * L, "antiderivative");
  Const e(CartesianAxis1D(y, x), rho); vc_eq(e.Integral(x, d, L), rho * L, "the axis does not matter");
  Const f(CartesianAxis1D(y, x), ConstantDistribution1D(rho)); vc_eq(f.Integral(x, d, L), rho * L, "the axis does not matter (profile)");
  vc_cover("constant");
}
//@ ConstantDensityDistribution::InverseIntegral (both forms): the length whose column depth is the integral; -1 exactly when beyond the maximum
VC_HARNESS(constant_inverse) {
  double rho = vc_real("rho"), k = vc_real("k"), I = vc_real("I"), m = vc_real("max"); Vector3D x = anyv("x"), d = unitv(); bool with = vc_bool("with");
  vc_assume(rho >= 0 && k >= 0 && I >= 0 && m >= 0 && (with ? rho + k > 0 : rho > 0));
  Const c(rho); double r = with ? c.InverseIntegral(x, d, k, I, m) : c.InverseIntegral(x, d, I, m); double t = with ? rho + k : rho;
  if(I > t * m) vc_assert(r == -1, "-1 beyond the maximal distance");
  else { vc_eq(r * t, I, "the column depth at the returned distance is the integral"); vc_le(0, r, "not negative"); vc_le(r, m, "not beyond the maximum"); }
  vc_cover("constant inverse");
}
//@ density along a cartesian axis, any profile: Integral * dx/dt = G(end) - G(start), both forms, additive, for every direction including perpendicular to the axis; derivative and antiderivative agree
VC_HARNESS(cartesian_integral) {
  Vector3D a = anyv("a"), p = anyv("p"), x = anyv("x"), d = unitv(); double L = vc_real("L"), M = vc_real("M"); Any g(0);
  CartesianAxis1D ax(a, p); Cart c(ax, g);
  double u = dot(a, x) - dot(a, p), s = dot(a, d);
  vc_eq(c.Evaluate(x), g.Evaluate(u), "density at the axis coordinate");
  vc_eq(c.Derivative(x, d), g.Derivative(u) * s, "directional derivative");
  double I = c.Integral(x, d, L);
  vc_assert(vc_finite(I), "the column depth is finite");
  if(s > 0 || s < 0) {
    vc_eq(I * s, g.AntiDerivative(u + s * L) - g.AntiDerivative(u), "column depth over a length");
    vc_eq(c.Integral(x, d, L) + c.Integral(x + d * L, d, M), c.Integral(x, d, L + M), "additive");
    vc_eq(c.AntiDerivative(x + d * L, d) - c.AntiDerivative(x, d), I, "antiderivative difference");
  } else vc_eq(I, g.Evaluate(u) * L, "column depth perpendicular to the axis");
  vc_cover("cartesian");
}
//@ density along a cartesian axis, any profile: the two-point form equals the direction form
VC_HARNESS(cartesian_two_points) {
  Vector3D a = anyv("a"), p = anyv("p"), x = anyv("x"), y = anyv("y"); Any g(0);
  CartesianAxis1D ax(a, p); Cart c(ax, g);
  double ux = dot(a, x) - dot(a, p), uy = dot(a, y) - dot(a, p); Vector3D w = y - x; double L = std::sqrt(dot(w, w));
  double I = c.Integral(x, y);
  vc_assert(vc_finite(I), "the column depth is finite");
  if(L > 0) {
    if(ux < uy || ux > uy) vc_eq(I * (uy - ux), L * (g.AntiDerivative(uy) - g.AntiDerivative(ux)), "column depth between two points");
    else vc_eq(I, g.Evaluate(ux) * L, "column depth between two points at the same axis coordinate");
  } else vc_eq(I, 0, "no column depth without distance");
  vc_cover("two points");
}
//@ density along a cartesian axis, any non-negative profile: InverseIntegral (both forms) returns the distance in [0,max] whose column depth is the integral, or -1 exactly when the column depth up to the maximum is smaller
static void cart_inverse(bool with, bool perp) {
  Vector3D a = anyv("a"), p = anyv("p"), x = anyv("x"), d = unitv(); double k = vc_real("k"), I = vc_real("I"), m = vc_real("max"); Any g(0);
  vc_assume(k >= 0 && I >= 0 && m > 0);
  if(perp) a = siren::math::cross_product(d, a);      // every vector perpendicular to d
#ifdef VC_NATIVE
  if(perp) { d = Vector3D(1, 0, 0); a = Vector3D(0, a.GetY(), a.GetZ()); }
#endif
  CartesianAxis1D ax(a, p); Cart c(ax, g);
  double u = dot(a, x) - dot(a, p), s = dot(a, d);
#ifdef VC_NATIVE
  vc_assume(std::fabs(u) < 1e3 && m < 1e3 && (s == 0 || std::fabs(s) > 1e-2) && std::fabs(s) < 1e2 && k < 1e3);
#endif
  double total;
  if(perp) { vc_assume(s == 0); double rho = g.Evaluate(u); vc_assume(rho > 0); total = rho * m; }
  else { vc_assume(s > 0 || s < 0); double G1 = g.AntiDerivative(u + s * m), G0 = g.AntiDerivative(u); vc_assume((G1 - G0) * s >= 0); total = (G1 - G0) / s; }
  if(with) total += k * m;
  double r = with ? c.InverseIntegral(x, d, k, I, m) : c.InverseIntegral(x, d, I, m);
#ifdef VC_NATIVE
  vc_assume(std::fabs(I - total) > 1e-6 * total); double slope = g.k[0] + 2 * g.k[1] + k;
#else
  double slope = 0;
#endif
  if(I > total) { vc_assert(r == -1, "-1 beyond the maximal distance"); return; }
  vc_le(0, r, "the distance is not negative"); vc_le(r, m, "the distance is not beyond the maximum");
  double J = perp ? g.Evaluate(u) * r : (g.AntiDerivative(u + s * r) - g.AntiDerivative(u)) / s;
  near(J + (with ? k * r : 0), I, slope, "the column depth at the returned distance is the integral");
}
//@ InverseIntegral without constant term, direction not perpendicular to the axis
VC_HARNESS(cartesian_inverse) { cart_inverse(false, false); vc_cover("cartesian inverse"); }
//@ InverseIntegral with constant term, direction not perpendicular to the axis
VC_HARNESS(cartesian_inverse_constant) { cart_inverse(true, false); vc_cover("cartesian inverse constant"); }
//@ InverseIntegral (both forms), direction perpendicular to the axis
VC_HARNESS(cartesian_inverse_perpendicular) { cart_inverse(vc_bool("with"), true); vc_cover("cartesian inverse perpendicular"); }

// ---- radial profile (and any axis): numerical integration along the line
static Vector3D lx, ld, lc; static Any* lg;
static double radial_density(double t) { Vector3D w = lx + ld * t - lc; return lg->Evaluate(std::sqrt(dot(w, w))); }
static double Jof(double L) {
#ifdef VC_NATIVE
  int n = 4000; double h = L / n, r = 0; for(int i = 0; i <= n; ++i) r += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * radial_density(i * h); return r * h / 3;
#else
  return vc_fun1("J", L) - vc_fun1("J", 0);
#endif
}
#ifdef VC_NATIVE
#define NOCONV(e) try { e; } catch(std::runtime_error const &) { vc_assume(false); }
#else
#define NOCONV(e) e;
#endif
static void radial_setup(Any & g) {
  lx = anyv("x"); ld = unitv(); lc = anyv("c"); lg = &g; line_density = radial_density;
#ifdef VC_NATIVE
  vc_assume(dot(lx - lc, lx - lc) < 1e4); g.k[2] = std::fmin(g.k[2], 0.2);
#endif
}
//@ density along a radial axis, any profile: Evaluate and Derivative; Integral over a length is the line integral of the density; the two-point form agrees
VC_HARNESS(radial_integral) {
  Any g(0); radial_setup(g); double L = vc_real("L"); vc_assume(L > 0);
#ifdef VC_NATIVE
  vc_assume(L < 20);
#endif
  RadialAxis1D ax(lc); Rad c(ax, g);
  Vector3D w = lx - lc; double r = std::sqrt(dot(w, w));
  vc_eq(c.Evaluate(lx), g.Evaluate(r), "density at the radius");
  if(r > 0) vc_eq(c.Derivative(lx, ld) * r, g.Derivative(r) * dot(w, ld), "directional derivative");
  double I; NOCONV(I = c.Integral(lx, ld, L))
  near(I, Jof(L), 1, "column depth over a length is the line integral");
  vc_cover("radial");
}
//@ density along a radial axis, any profile: the two-point form is the line integral between the points
VC_HARNESS(radial_two_points) {
  Any g(0); radial_setup(g); Vector3D y = anyv("y"), w = y - lx; double L = std::sqrt(dot(w, w)); vc_assume(L > 0);
#ifdef VC_NATIVE
  vc_assume(L < 20);
#endif
  ld = Vector3D(w.GetX() / L, w.GetY() / L, w.GetZ() / L);
  RadialAxis1D ax(lc); Rad c(ax, g);
  double J; NOCONV(J = c.Integral(lx, y))
  near(J, Jof(L), 1, "column depth between two points is the line integral");
  vc_cover("radial two points");
}
//@ density along a radial axis, any non-negative profile: InverseIntegral (both forms) inverts the line integral or returns -1 exactly when it is out of range
VC_HARNESS(radial_inverse) {
  Any g(0); radial_setup(g); bool with = vc_bool("with"); double k = vc_real("k"), I = vc_real("I"), m = vc_real("max"); vc_assume(k >= 0 && I >= 0 && m > 0);
#ifdef VC_NATIVE
  vc_assume(m < 20 && k < 1e3);
#endif
  RadialAxis1D ax(lc); Rad c(ax, g);
  double total = Jof(m) + (with ? k * m : 0); vc_assume(Jof(m) >= 0);
  double r; NOCONV(r = with ? c.InverseIntegral(lx, ld, k, I, m) : c.InverseIntegral(lx, ld, I, m))
#ifdef VC_NATIVE
  vc_assume(std::fabs(I - total) > 2e-2 * total); double slope = g.k[0] + 2 * g.k[1] + k;
#else
  double slope = 0;
#endif
  if(I > total) { vc_assert(r == -1, "-1 beyond the maximal distance"); return; }
  vc_le(0, r, "the distance is not negative"); vc_le(r, m, "the distance is not beyond the maximum");
  near(Jof(r) + (with ? k * r : 0), I, slope, "the line integral up to the returned distance is the integral");
  vc_cover("radial inverse");
}
//@ compare, clone, create, copy: exactly when axis and profile agree, never across kinds; clones are equal and evaluate the same
VC_HARNESS(identity) {
  Vector3D a = anyv("a"), p = anyv("p"), b = anyv("b"), q = anyv("q"), x = anyv("x"), d = unitv(); double r1 = vc_real("r1"), r2 = vc_real("r2"), L = vc_real("L");
  CartesianAxis1D A(a, p), B(b, q); RadialAxis1D R(p), S(q);
  ExponentialDistribution1D e(r1), f(r2);
  Const c1(A, r1), c2(B, r2);
  CartesianAxisExponentialDensityDistribution x1(A, e), x2(B, f);
  DensityDistribution1D<RadialAxis1D, ExponentialDistribution1D> y1(R, e), y2(S, f);
  vc_assert((c1 == c2) == (A == B && r1 == r2), "constant densities"); vc_assert((x1 == x2) == (A == B && r1 == r2), "cartesian densities"); vc_assert((y1 == y2) == (p == q && r1 == r2), "radial densities");
  DensityDistribution const * all[] = {&c1, &x1, &y1};
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) if(i != j) vc_assert(!(*all[i] == *all[j]) && *all[i] != *all[j], "different kinds differ");
  for(int i = 0; i < 3; ++i) {
    DensityDistribution* k = all[i]->clone(); std::shared_ptr<DensityDistribution> s = all[i]->create();
    vc_assert(*k == *all[i] && *s == *all[i], "clones are equal"); vc_eq(k->Evaluate(x), all[i]->Evaluate(x), "clone has the same density"); vc_eq(s->Evaluate(x), all[i]->Evaluate(x), "created copy has the same density");
    delete k;
  }
  vc_cover("identity");
}
