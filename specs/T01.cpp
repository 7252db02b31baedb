// One-dimensional axes and density profiles.
// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Polynomial.cxx projects/detector/private/Axis1D.cxx projects/detector/private/CartesianAxis1D.cxx projects/detector/private/RadialAxis1D.cxx projects/detector/private/Distribution1D.cxx projects/detector/private/ConstantDistribution1D.cxx projects/detector/private/ExponentialDistribution1D.cxx projects/detector/private/PolynomialDistribution1D.cxx
#include "common.h"
#include "SIREN/detector/CartesianAxis1D.h"
#include "SIREN/detector/RadialAxis1D.h"
#include "SIREN/detector/ConstantDistribution1D.h"
#include "SIREN/detector/ExponentialDistribution1D.h"
#include "SIREN/detector/PolynomialDistribution1D.h"
using namespace siren::detector; using siren::math::Vector3D; using siren::math::Polynom;
static Vector3D anyv(const char* n) { return Vector3D(vc_real((std::string(n) + "x").c_str()), vc_real((std::string(n) + "y").c_str()), vc_real((std::string(n) + "z").c_str())); }
static bool same(Vector3D const & a, Vector3D const & b) { return a.GetX() == b.GetX() && a.GetY() == b.GetY() && a.GetZ() == b.GetZ(); }
static double dot(Vector3D const & a, Vector3D const & b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
//@ CartesianAxis1D: GetX is the projection on the axis from the anchor, GetdX the rate of change of GetX along any direction
VC_HARNESS(cartesian_axis) {
  Vector3D ax = anyv("a"), p0 = anyv("p"), x = anyv("x"), d = anyv("d"); double t = vc_real("t");
  CartesianAxis1D A(ax, p0);
  vc_eq(A.GetX(x), dot(ax, x) - dot(ax, p0), "coordinate is the projection from the anchor");
  vc_eq(A.GetX(p0), 0, "the anchor has coordinate zero");
  vc_eq(A.GetX(x + d * t) - A.GetX(x), t * A.GetdX(x, d), "GetdX is the slope of GetX along the direction");
  CartesianAxis1D B(A); vc_eq(B.GetX(x), A.GetX(x), "copy"); vc_assert(A == B, "a copy is equal");
  VC_EQ3(A.GetAxis(), ax, "GetAxis"); VC_EQ3(A.GetFp0(), p0, "GetFp0");
  CartesianAxis1D D; vc_eq(D.GetX(x), x.GetX(), "default axis is x"); vc_eq(D.GetdX(p0, d), d.GetX(), "default axis slope");
  vc_cover("cartesian");
}
//@ RadialAxis1D: GetX is the distance from the centre, GetdX its rate of change: (x-c).d = r dr/dt
VC_HARNESS(radial_axis) {
  Vector3D p0 = anyv("p"), x = anyv("x"), d = anyv("d");
  RadialAxis1D A(p0);
  double r2 = sq(x.GetX() - p0.GetX()) + sq(x.GetY() - p0.GetY()) + sq(x.GetZ() - p0.GetZ());
  double r = A.GetX(x);
  vc_eq(r * r, r2, "coordinate squared is the squared distance"); vc_le(0, r, "coordinate is not negative");
  vc_assume(r2 > 0);
  double s = A.GetdX(x, d);
  vc_eq(s * r, dot(x, d) - dot(p0, d), "slope along the direction");
  RadialAxis1D B(anyv("a"), p0); vc_eq(B.GetX(x), r, "the axis direction does not matter"); vc_eq(B.GetdX(x, d), s, "the axis direction does not matter for the slope");
  RadialAxis1D C(B); vc_eq(C.GetX(x), r, "copy"); vc_assert(C == B, "a copy is equal");
  RadialAxis1D D; double q = D.GetX(x); vc_eq(q * q, dot(x, x), "default centre is the origin");
  vc_cover("radial");
}
//@ Axis equality: exactly when kind and parameters agree; never across kinds
VC_HARNESS(axis_equality) {
  Vector3D a1 = anyv("a"), p1 = anyv("p"), a2 = anyv("b"), p2 = anyv("q");
  CartesianAxis1D C1(a1, p1), C2(a2, p2); RadialAxis1D R1(p1), R2(p2);
  vc_assert((C1 == C2) == (same(a1, a2) && same(p1, p2)), "cartesian axes equal exactly when axis and anchor agree");
  vc_assert((C1 != C2) == !(C1 == C2), "!= negates == (cartesian)");
  vc_assert((R1 == R2) == same(p1, p2), "radial axes equal exactly when the centres agree");
  vc_assert((R1 != R2) == !(R1 == R2), "!= negates == (radial)");
  Axis1D const & x = C1; Axis1D const & y = R1;
  vc_assert(!(x == y) && !(y == x) && x != y, "different kinds differ");
  vc_cover("axes");
}
//@ ConstantDistribution1D: value everywhere, zero derivative, antiderivative difference = value times distance
VC_HARNESS(constant) {
  double v = vc_real("v"), x = vc_real("x"), y = vc_real("y"), w = vc_real("w");
  ConstantDistribution1D c(v);
  vc_eq(c.Evaluate(x), v, "value"); vc_eq(c.Derivative(x), 0, "derivative"); vc_eq(c.AntiDerivative(y) - c.AntiDerivative(x), v * (y - x), "antiderivative");
  ConstantDistribution1D k(c); vc_eq(k.Evaluate(y), v, "copy");
  ConstantDistribution1D o(w); vc_assert((c == o) == (v == w), "equal exactly when the values agree"); vc_assert((c != o) == !(c == o), "!= negates ==");
  ConstantDistribution1D z; vc_assert(z.Evaluate(x) == 1e-25, "default is vacuum density");
  vc_cover("constant");
}
//@ ExponentialDistribution1D: A exp(sigma (x-x0)); derivative sigma rho; antiderivative times sigma is rho
VC_HARNESS(exponential) {
  double s = vc_real("sigma"), A = vc_real("A"), x0 = vc_real("x0"), x = vc_real("x"); vc_assume(s > 0 || s < 0);
  ExponentialDistribution1D e(s, A, x0);
  double rho = A * std::exp(s * (x - x0));
  vc_eq(e.Evaluate(x), rho, "value"); vc_eq(e.Derivative(x), s * rho, "derivative"); vc_eq(e.AntiDerivative(x) * s, rho, "antiderivative");
  ExponentialDistribution1D f(s); vc_eq(f.Evaluate(x), std::exp(s * x), "unit amplitude at zero"); vc_eq(f.Derivative(x), s * std::exp(s * x), "derivative (unit)");
  ExponentialDistribution1D g; vc_eq(g.Evaluate(x), std::exp(x), "default profile");
  ExponentialDistribution1D k(e); vc_eq(k.Evaluate(x), rho, "copy"); vc_assert(k == e, "a copy is equal");
  vc_cover("exponential");
}
//@ ExponentialDistribution1D equality: exactly when all three parameters agree; profiles of different kinds differ
VC_HARNESS(exponential_equality) {
  double s = vc_real("sigma"), A = vc_real("A"), x0 = vc_real("x0"), s2 = vc_real("sigma2"), A2 = vc_real("A2"), x2 = vc_real("x2");
  ExponentialDistribution1D e(s, A, x0), f(s2, A2, x2);
  vc_assert((e == f) == (s == s2 && A == A2 && x0 == x2), "equal exactly when the parameters agree"); vc_assert((e != f) == !(e == f), "!= negates ==");
  ConstantDistribution1D c(A); PolynomialDistribution1D p(std::vector<double>{A});
  Distribution1D const * d[3] = {&e, &c, &p};
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) if(i != j) vc_assert(!(*d[i] == *d[j]) && *d[i] != *d[j], "different kinds differ");
}
//@ PolynomialDistribution1D: sum c_i x^i with its exact derivative and antiderivative, from coefficients or a Polynom, and in copies
VC_HARNESS(polynomial) {
  int n = 1 + vc_choice("n", 5); std::vector<double> c; for(int i = 0; i < n; ++i) c.push_back(vc_real("c"));
  double x = vc_real("x"), y = vc_real("y");
  auto val = [&](double t) { double r = 0, p = 1; for(double k : c) { r += k * p; p *= t; } return r; };
  auto der = [&](double t) { double r = 0, p = 1; for(size_t i = 1; i < c.size(); ++i) { r += i * c[i] * p; p *= t; } return r; };
  auto ant = [&](double t) { double r = 0, p = t; for(size_t i = 0; i < c.size(); ++i) { r += c[i] * p / double(i + 1); p *= t; } return r; };
  int how = vc_choice("how", 4);
  PolynomialDistribution1D a(c); PolynomialDistribution1D b{Polynom(c)}; PolynomialDistribution1D k(b); PolynomialDistribution1D l(std::vector<double>{1, 2}); 
  if(how == 3) l = a;
  PolynomialDistribution1D & d = how == 0 ? a : how == 1 ? b : how == 2 ? k : l;
  vc_eq(d.Evaluate(x), val(x), "value"); vc_eq(d.Derivative(x), der(x), "derivative");
  vc_eq(d.AntiDerivative(y) - d.AntiDerivative(x), ant(y) - ant(x), "antiderivative");
  vc_assert(d == a && !(d != a), "the same profile however it was built");
  vc_cover("polynomial");
}
//@ PolynomialDistribution1D equality: exactly when the coefficients agree
VC_HARNESS(polynomial_equality) {
  double a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d");
  PolynomialDistribution1D p(std::vector<double>{a, b}), q(std::vector<double>{c, d}), r(std::vector<double>{a});
  vc_assert((p == q) == (a == c && b == d), "equal exactly when coefficients agree"); vc_assert(!(p == r), "different degree"); 
}
