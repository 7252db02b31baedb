// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Matrix3D.cxx
#include "common.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Matrix3D.h"
using namespace siren::math;
static Vector3D V(const char* x, const char* y, const char* z) { return Vector3D(vc_real(x), vc_real(y), vc_real(z)); }
static Vector3D A() { return V("ax","ay","az"); }
static Vector3D B() { return V("bx","by","bz"); }
static Matrix3D M(const char* const n[9]) { return Matrix3D(vc_real(n[0]),vc_real(n[1]),vc_real(n[2]),vc_real(n[3]),vc_real(n[4]),vc_real(n[5]),vc_real(n[6]),vc_real(n[7]),vc_real(n[8])); }
static const char* const MN[9] = {"m00","m01","m02","m10","m11","m12","m20","m21","m22"};
static const char* const NN[9] = {"n00","n01","n02","n10","n11","n12","n20","n21","n22"};
static double at(Matrix3D const& m, int i, int j) { double a[9] = {m.GetXX(),m.GetXY(),m.GetXZ(),m.GetYX(),m.GetYY(),m.GetYZ(),m.GetZX(),m.GetZY(),m.GetZZ()}; return a[3*i+j]; }
#define EQV(v, X, Y, Z, L) do { Vector3D const & v_ = (v); vc_eq(v_.GetX(), X, L " [x]"); vc_eq(v_.GetY(), Y, L " [y]"); vc_eq(v_.GetZ(), Z, L " [z]"); } while(0)

//@ construction, copy, move, assignment, swap and conversion keep the three Cartesian components
VC_HARNESS(vector_components) {
  double x = vc_real("x"), y = vc_real("y"), z = vc_real("z");
  Vector3D v(x, y, z);
  EQV(v, x, y, z, "ctor");
  std::array<double,3> arr = v;
  vc_eq(arr[0], x, "to array 0"); vc_eq(arr[1], y, "to array 1"); vc_eq(arr[2], z, "to array 2");
  EQV(Vector3D(arr), x, y, z, "from array");
  Vector3D c(v); EQV(c, x, y, z, "copy");
  Vector3D d; EQV(d, 0, 0, 0, "default"); d = v; EQV(d, x, y, z, "assign"); EQV(v, x, y, z, "source unchanged");
  Vector3D e; e = Vector3D(x, y, z); EQV(e, x, y, z, "move assign");
  Vector3D const cv(v); Vector3D g; g = std::move(cv); EQV(g, x, y, z, "const move assign");
  d = d; EQV(d, x, y, z, "self assign");
  Vector3D w = B(); Vector3D w0(w);
  v.swap(w); EQV(w, x, y, z, "swap"); VC_EQ3(v, w0, "swap other");
  v.SetCartesianCoordinates(x, y, z); EQV(v, x, y, z, "set cartesian");
  vc_assert(v == v, "reflexive");
  vc_cover("post");
}
//@ the arithmetic operators are the vector-space operations, binary and compound forms agree, operands unchanged
VC_HARNESS(vector_arithmetic) {
  Vector3D a = A(), b = B(); double k = vc_real("k");
  Vector3D a0(a), b0(b);
  EQV(a + b, a.GetX()+b.GetX(), a.GetY()+b.GetY(), a.GetZ()+b.GetZ(), "sum");
  EQV(a - b, a.GetX()-b.GetX(), a.GetY()-b.GetY(), a.GetZ()-b.GetZ(), "difference");
  EQV(-a, -a.GetX(), -a.GetY(), -a.GetZ(), "negation");
  EQV(a * k, k*a.GetX(), k*a.GetY(), k*a.GetZ(), "vector*scalar");
  EQV(k * a, k*a.GetX(), k*a.GetY(), k*a.GetZ(), "scalar*vector");
  Vector3D c(a); c += b; VC_EQ3(c, a + b, "+=");
  c = a; c -= b; VC_EQ3(c, a - b, "-=");
  c = a; c *= k; VC_EQ3(c, a * k, "*=");
  c = a; c.invert(); VC_EQ3(c, -a, "invert"); VC_EQ3(a.inverted(), -a, "inverted");
  vc_cover("post");
  if(k != 0) { VC_EQ3((a / k) * k, a, "division"); c = a; c /= k; VC_EQ3(c, a / k, "/="); }
  VC_EQ3(a, a0, "lhs unchanged"); VC_EQ3(b, b0, "rhs unchanged");
}
//@ dot and cross products: definition, symmetry, antisymmetry, orthogonality, Lagrange identity
VC_HARNESS(vector_products) {
  Vector3D a = A(), b = B();
  double d = a * b;
  vc_eq(d, a.GetX()*b.GetX()+a.GetY()*b.GetY()+a.GetZ()*b.GetZ(), "dot");
  vc_eq(scalar_product(a, b), d, "scalar_product"); vc_eq(scalar_product(b, a), d, "dot symmetric");
  Vector3D x = cross_product(a, b);
  EQV(x, a.GetY()*b.GetZ()-a.GetZ()*b.GetY(), a.GetZ()*b.GetX()-a.GetX()*b.GetZ(), a.GetX()*b.GetY()-a.GetY()*b.GetX(), "cross");
  VC_EQ3(vector_product(a, b), x, "vector_product"); VC_EQ3(cross_product(b, a), -x, "antisymmetric");
  vc_eq(x * a, 0, "orthogonal to a"); vc_eq(x * b, 0, "orthogonal to b");
  vc_eq(x * x + d * d, (a * a) * (b * b), "Lagrange");
  vc_cover("post");
}
//@ magnitude is the Euclidean norm; normalisation yields the unit vector of the same direction and leaves the zero vector alone
VC_HARNESS(vector_normalize) {
  Vector3D v = A();
  double m = v.magnitude();
  vc_le(0, m, "magnitude nonnegative"); vc_eq(m * m, v * v, "magnitude squared");
  Vector3D w = v.normalized(); Vector3D u(v); u.normalize(); VC_EQ3(u, w, "in place agrees");
  if(m == 0) { EQV(w, v.GetX(), v.GetY(), v.GetZ(), "zero vector"); vc_cover("zero"); }
  else { vc_eq(w * w, 1, "unit length"); VC_EQ3(w * m, v, "same direction"); vc_cover("nonzero"); }
}
//@ spherical coordinates: radius is the norm, zenith in [0,pi], and converting back gives the same vector
VC_HARNESS(vector_spherical) {
  Vector3D v = A(); Vector3D o(v);
  v.CalculateSphericalCoordinates();
  VC_EQ3(v, o, "cartesian unchanged");
  double r = v.GetRadius(), th = v.GetTheta(), ph = v.GetPhi();
  vc_eq(r, o.magnitude(), "radius");
  vc_le(0, th, "zenith lower"); vc_le(th, M_PI, "zenith upper"); vc_le(-M_PI, ph, "azimuth lower"); vc_le(ph, M_PI, "azimuth upper");
  Vector3D w; w.SetSphericalCoordinates(r, ph, th); w.CalculateCartesianFromSpherical();
  VC_EQ3(w, o, "round trip");
  vc_cover("post");
}
//@ cartesian from spherical: norm is the radius, polar angle measured from z, azimuth from x
VC_HARNESS(vector_from_spherical) {
  double r = vc_real("r"), az = vc_real("az"), ze = vc_real("ze");
  Vector3D w; w.SetSphericalCoordinates(r, az, ze); w.CalculateCartesianFromSpherical();
  vc_eq(w * w, r * r, "norm");
  vc_eq(w.GetZ(), r * std::cos(ze), "z"); vc_eq(w.GetX(), r * std::sin(ze) * std::cos(az), "x"); vc_eq(w.GetY(), r * std::sin(ze) * std::sin(az), "y");
  vc_cover("post");
}
//@ deflecting a unit vector by (cos(phi), theta) yields a unit vector at exactly that angle to the original
VC_HARNESS(vector_deflect) {
  double z = vc_range("zen", 0, M_PI), a = vc_range("azi", -M_PI, M_PI);
  Vector3D v(std::sin(z)*std::cos(a), std::sin(z)*std::sin(a), std::cos(z)); Vector3D o(v);
  double c = vc_range("c", -1, 1), t = vc_real("t");
  v.deflect(c, t);
  vc_cover("post");
  vc_eq(v * o, c, "angle"); vc_eq(v * v, 1, "unit");
}
//@ matrix element access: ctor order, [i,j] addressing, out-of-range rejected
VC_HARNESS(matrix_elements) {
  Matrix3D m = M(MN);
  int i = vc_choice("i", 4), j = vc_choice("j", 4);
  bool thrown = false; double val = 0;
  try { val = m[{(unsigned)i, (unsigned)j}]; } catch(std::runtime_error const &) { thrown = true; }
  vc_assert(thrown == (i == 3 || j == 3), "out of range index rejected");
  if(!thrown) {
    vc_eq(val, at(m, i, j), "element"); vc_cover("read");
    double k = vc_real("k"); Matrix3D o(m); m[{(unsigned)i, (unsigned)j}] = k;
    for(int a = 0; a < 3; ++a) for(int b = 0; b < 3; ++b) vc_eq(at(m, a, b), (a == i && b == j) ? k : at(o, a, b), "write frame");
  }
}
//@ matrix operators are the linear-algebra operations; product matches composition of maps
VC_HARNESS(matrix_arithmetic) {
  Matrix3D m = M(MN), n = M(NN); double k = vc_real("k"); Vector3D v = A();
  Matrix3D s = m + n, d = m - n, km = k * m, mk = m * k, p = m * n, h = scalar_product(m, n), ng = -m, mp = matrix_product(m, n);
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
    vc_eq(at(s,i,j), at(m,i,j)+at(n,i,j), "sum"); vc_eq(at(d,i,j), at(m,i,j)-at(n,i,j), "difference");
    vc_eq(at(km,i,j), k*at(m,i,j), "scalar*matrix"); vc_eq(at(mk,i,j), k*at(m,i,j), "matrix*scalar"); vc_eq(at(ng,i,j), -at(m,i,j), "negation");
    double q = 0; for(int l = 0; l < 3; ++l) q += at(m,i,l)*at(n,l,j);
    vc_eq(at(p,i,j), q, "product"); vc_eq(at(mp,i,j), q, "matrix_product"); vc_eq(at(h,i,j), at(m,i,j)*at(n,i,j), "elementwise product");
  }
  VC_EQ3(p * v, m * (n * v), "composition"); 
  Vector3D mv = m * v; double x[3] = {v.GetX(), v.GetY(), v.GetZ()}, y[3] = {mv.GetX(), mv.GetY(), mv.GetZ()};
  for(int i = 0; i < 3; ++i) vc_eq(y[i], at(m,i,0)*x[0]+at(m,i,1)*x[1]+at(m,i,2)*x[2], "matrix*vector");
  Matrix3D c(m); c += n; for(int i = 0; i < 9; ++i) vc_eq(at(c,i/3,i%3), at(s,i/3,i%3), "+=");
  c = m; c *= k; for(int i = 0; i < 9; ++i) vc_eq(at(c,i/3,i%3), at(km,i/3,i%3), "*=");
  if(k != 0) { c = m; c /= k; Matrix3D q = m / k; for(int i = 0; i < 9; ++i) { vc_eq(at(c,i/3,i%3)*k, at(m,i/3,i%3), "/="); vc_eq(at(q,i/3,i%3)*k, at(m,i/3,i%3), "/"); } }
  vc_cover("post");
}
//@ matrix copies, assignment, swap, equality
VC_HARNESS(matrix_value) {
  Matrix3D m = M(MN), n = M(NN); Matrix3D m0(m), n0(n);
  bool same = true; for(int i = 0; i < 9; ++i) same = same && at(m,i/3,i%3) == at(n,i/3,i%3);
  vc_assert((m == n) == same, "equality is elementwise"); vc_assert((m != n) == !(m == n), "!=");
  vc_cover("eq");
  m.swap(n); for(int i = 0; i < 9; ++i) { vc_eq(at(m,i/3,i%3), at(n0,i/3,i%3), "swap"); vc_eq(at(n,i/3,i%3), at(m0,i/3,i%3), "swap2"); }
  Matrix3D t; t = m0; for(int i = 0; i < 9; ++i) vc_eq(at(t,i/3,i%3), at(m0,i/3,i%3), "assign");
  Matrix3D u; u = Matrix3D(m0); Matrix3D w(std::move(u)); for(int i = 0; i < 9; ++i) vc_eq(at(w,i/3,i%3), at(m0,i/3,i%3), "move");
}
