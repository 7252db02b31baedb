// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Quaternion.cxx projects/math/private/Matrix3D.cxx projects/math/private/EulerAngles.cxx
// OPTS *: obl_ms=30000
#include "common.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/Matrix3D.h"
#include "SIREN/math/EulerAngles.h"
#include "SIREN/math/Conversions.h"
#include "SIREN/math/EulerQuaternionConversions.h"
using namespace siren::math;
static Vector3D V(const char* x, const char* y, const char* z) { return Vector3D(vc_real(x), vc_real(y), vc_real(z)); }
static Quaternion Q(const char* x, const char* y, const char* z, const char* w) { return Quaternion(vc_real(x), vc_real(y), vc_real(z), vc_real(w)); }
static double n2(Quaternion const & q) { return q.GetX()*q.GetX()+q.GetY()*q.GetY()+q.GetZ()*q.GetZ()+q.GetW()*q.GetW(); }
// any non-zero quaternion outside the sliver in which rotate() skips the division by the norm
static Quaternion nonzero() { Quaternion q = Q("qx","qy","qz","qw"); double n = n2(q); vc_assume(n > 0); vc_assume(n == 1 || std::fabs(n - 1) >= 1e-9); return q; }
static Quaternion unit(const char* x, const char* y, const char* z, const char* w) {
  Quaternion q = Q(x, y, z, w);
#ifdef VC_NATIVE
  double n = std::sqrt(n2(q)); vc_assume(n > 0); return Quaternion(q.GetX()/n, q.GetY()/n, q.GetZ()/n, q.GetW()/n);
#else
  vc_assume(n2(q) == 1); return q;
#endif
}
#define EQQ(a, b, L) do { Quaternion const & a_ = (a); Quaternion const & b_ = (b); vc_eq(a_.GetX(), b_.GetX(), L " [x]"); vc_eq(a_.GetY(), b_.GetY(), L " [y]"); vc_eq(a_.GetZ(), b_.GetZ(), L " [z]"); vc_eq(a_.GetW(), b_.GetW(), L " [w]"); } while(0)
static double at(Matrix3D const& m, int i, int j) { double a[9] = {m.GetXX(),m.GetXY(),m.GetXZ(),m.GetYX(),m.GetYY(),m.GetYZ(),m.GetZX(),m.GetZY(),m.GetZZ()}; return a[3*i+j]; }
// reference rotation by the Hamilton product q v q* for unit q, written independently
static Vector3D sandwich(Quaternion const & q, Vector3D const & v) {
  double x = q.GetX(), y = q.GetY(), z = q.GetZ(), w = q.GetW();
  double tx = 2*(y*v.GetZ()-z*v.GetY()), ty = 2*(z*v.GetX()-x*v.GetZ()), tz = 2*(x*v.GetY()-y*v.GetX());
  return Vector3D(v.GetX()+w*tx+y*tz-z*ty, v.GetY()+w*ty+z*tx-x*tz, v.GetZ()+w*tz+x*ty-y*tx);
}
// right-handed rotation of v about coordinate axis ax (0,1,2) by angle with the given cosine and sine
static A3 axis_rot(int ax, double c, double s, A3 v) { int j = (ax+1)%3, k = (ax+2)%3; A3 r = v; r[j] = c*v[j]-s*v[k]; r[k] = s*v[j]+c*v[k]; return r; }

//@ rotate by any non-zero quaternion preserves length, and the inverse rotation undoes it
VC_HARNESS(rotate_isometry) {
  Quaternion q = nonzero(); Vector3D v = V("vx","vy","vz");
  Vector3D r = q.rotate(v, false);
  vc_cover("post");
  vc_eq(r * r, v * v, "norm preserved");
  VC_EQ3(q.rotate(r, true), v, "inverse undoes");
}
//@ rotate preserves scalar products and orientation (it is a proper rotation)
VC_HARNESS(rotate_proper) {
  Quaternion q = unit("qx","qy","qz","qw"); Vector3D v = V("vx","vy","vz"), u = V("ux","uy","uz");
  Vector3D rv = q.rotate(v, false), ru = q.rotate(u, false);
  vc_cover("post");
  vc_eq(rv * ru, v * u, "angle preserved");
  VC_EQ3(cross_product(rv, ru), q.rotate(cross_product(v, u), false), "orientation preserved");
}
//@ rotate is the Hamilton sandwich product, and scaling the quaternion does not matter
VC_HARNESS(rotate_sandwich) {
  Quaternion q = unit("qx","qy","qz","qw"); Vector3D v = V("vx","vy","vz");
  VC_EQ3(q.rotate(v, false), sandwich(q, v), "sandwich");
  VC_EQ3(q.rotate(v, true), sandwich(q.conjugated(), v), "inverse sandwich");
  Quaternion p(v.GetX(), v.GetY(), v.GetZ(), vc_real("pw")); Quaternion rp = q.rotate(p, false), ip = q.rotate(p, true);
  VC_EQ3(Vector3D(rp.GetX(), rp.GetY(), rp.GetZ()), sandwich(q, v), "quaternion overload"); vc_eq(rp.GetW(), p.GetW(), "scalar part kept");
  VC_EQ3(Vector3D(ip.GetX(), ip.GetY(), ip.GetZ()), sandwich(q.conjugated(), v), "quaternion overload inverse");
  vc_cover("post");
}
//@ scaling a quaternion does not change the rotation
VC_HARNESS(rotate_scale) {
  Quaternion q = nonzero(); Vector3D v = V("vx","vy","vz");
  Quaternion u = q.normalized();
  vc_eq(n2(u), 1, "normalized is unit");
  vc_cover("post");
  VC_EQ3(q.rotate(v, false), sandwich(u, v), "scale invariant");
  VC_EQ3(q.rotate(v, true), sandwich(u.conjugated(), v), "scale invariant inverse");
  Quaternion p(v); Quaternion rp = q.rotate(p, false), ip = q.rotate(p, true);
  VC_EQ3(Vector3D(rp.GetX(), rp.GetY(), rp.GetZ()), sandwich(u, v), "quaternion overload");
  VC_EQ3(Vector3D(ip.GetX(), ip.GetY(), ip.GetZ()), sandwich(u.conjugated(), v), "quaternion overload inverse");
}
//@ the quaternion product composes rotations: (a*b) rotates by b first, then a
VC_HARNESS(product_composes) {
  Quaternion a = unit("ax","ay","az","aw"), b = unit("bx","by","bz","bw"); Vector3D v = V("vx","vy","vz");
  Quaternion p = a * b;
  vc_eq(n2(p), 1, "product of units is a unit");
  VC_EQ3(p.rotate(v, false), a.rotate(b.rotate(v, false), false), "composition");
  vc_cover("post");
}
//@ ring structure: product is associative and distributes, norms multiply, conjugate and inverse behave
VC_HARNESS(algebra) {
  Quaternion a = Q("ax","ay","az","aw"), b = Q("bx","by","bz","bw"), c = Q("cx","cy","cz","cw"); double k = vc_real("k");
  EQQ((a*b)*c, a*(b*c), "associative"); EQQ(a*(b+c), a*b + a*c, "distributive");
  EQQ(a + b, Quaternion(a.GetX()+b.GetX(), a.GetY()+b.GetY(), a.GetZ()+b.GetZ(), a.GetW()+b.GetW()), "sum");
  EQQ(a * k, Quaternion(k*a.GetX(), k*a.GetY(), k*a.GetZ(), k*a.GetW()), "scaling");
  Quaternion d(a); d *= k; EQQ(d, a * k, "*= scalar"); d = a; d += b; EQQ(d, a + b, "+= quaternion");
  vc_eq(n2(a*b), n2(a)*n2(b), "norm multiplicative"); vc_eq(a.magnitudesq(), n2(a), "magnitudesq"); vc_eq(sq(a.magnitude()), n2(a), "magnitude"); vc_le(0, a.magnitude(), "magnitude sign");
  vc_eq(a.DotProduct(b), a.GetX()*b.GetX()+a.GetY()*b.GetY()+a.GetZ()*b.GetZ()+a.GetW()*b.GetW(), "dot");
  EQQ(a.conjugated(), Quaternion(-a.GetX(), -a.GetY(), -a.GetZ(), a.GetW()), "conjugate"); EQQ(~a, a.conjugated(), "~");
  double t = vc_real("t"); EQQ(Quaternion::lerp(a, b, t), a * (1 - t) + b * t, "lerp");
  EQQ(Quaternion::lerp(a, b, 0), a, "lerp 0"); EQQ(Quaternion::lerp(a, b, 1), b, "lerp 1");
  vc_cover("post");
}
//@ adding a scalar adds it to the quaternion in both forms alike
VC_HARNESS(add_scalar) {
  Quaternion a = Q("ax","ay","az","aw"); double k = vc_real("k");
  Quaternion d(a); d += k; EQQ(a + k, d, "+ agrees with +="); vc_cover("post");
}
//@ inverse: a * a^-1 = 1
VC_HARNESS(inverse) {
  Quaternion a = Q("ax","ay","az","aw"); vc_assume(n2(a) > 0);
  EQQ(a * a.inverted(), Quaternion(0, 0, 0, 1), "right inverse"); EQQ(a.inverted() * a, Quaternion(0, 0, 0, 1), "left inverse"); EQQ(!a, a.inverted(), "!");
  Quaternion b(a); b.invert(); EQQ(b, a.inverted(), "in place"); vc_cover("post");
}
//@ copies, assignments, swap, comparison with itself
VC_HARNESS(value) {
  Quaternion a = Q("ax","ay","az","aw"), b = Q("bx","by","bz","bw"); Quaternion a0(a), b0(b);
  a.swap(b); EQQ(a, b0, "swap"); EQQ(b, a0, "swap other"); Quaternion c; EQQ(c, Quaternion(0,0,0,1), "default is identity"); c = a0; EQQ(c, a0, "assign");
  Quaternion d; d = Quaternion(b0); EQQ(d, b0, "move assign"); Quaternion e(std::move(d)); EQQ(e, b0, "move");
  Vector3D v = V("vx","vy","vz"); Quaternion f(v); EQQ(f, Quaternion(v.GetX(), v.GetY(), v.GetZ(), 0), "from vector"); e.SetPosition(v); EQQ(e, f, "SetPosition");
  vc_cover("post");
}
//@ the rotation matrix of a unit quaternion acts like rotate; both conversions agree
VC_HARNESS(matrix_agrees) {
  Quaternion q = unit("qx","qy","qz","qw"); Vector3D v = V("vx","vy","vz");
  Matrix3D m = q.GetMatrix(), k = Matrix3DFromQuaternion(q);
  VC_EQ3(m * v, q.rotate(v, false), "matrix acts like rotate");
  for(int i = 0; i < 9; ++i) vc_eq(at(m, i/3, i%3), at(k, i/3, i%3), "conversions agree");
  vc_cover("post");
}
//@ the matrix of a quaternion of any length is that of the unit quaternion
VC_HARNESS(matrix_of_any) {
  Quaternion q = nonzero(); Vector3D v = V("vx","vy","vz");
  VC_EQ3(Matrix3DFromQuaternion(q) * v, q.rotate(v, false), "matrix acts like rotate"); vc_cover("post");
}
//@ recovering a quaternion from its matrix gives the same rotation (up to the common sign)
VC_HARNESS(matrix_round_trip) {
  Quaternion q = unit("qx","qy","qz","qw"); Quaternion r; r.SetMatrix(q.GetMatrix());
  vc_cover("post");
  vc_eq(r.GetX()*r.GetX(), q.GetX()*q.GetX(), "xx"); vc_eq(r.GetX()*r.GetY(), q.GetX()*q.GetY(), "xy"); vc_eq(r.GetX()*r.GetZ(), q.GetX()*q.GetZ(), "xz"); vc_eq(r.GetX()*r.GetW(), q.GetX()*q.GetW(), "xw");
  vc_eq(r.GetY()*r.GetY(), q.GetY()*q.GetY(), "yy"); vc_eq(r.GetY()*r.GetZ(), q.GetY()*q.GetZ(), "yz"); vc_eq(r.GetY()*r.GetW(), q.GetY()*q.GetW(), "yw");
  vc_eq(r.GetZ()*r.GetZ(), q.GetZ()*q.GetZ(), "zz"); vc_eq(r.GetZ()*r.GetW(), q.GetZ()*q.GetW(), "zw"); vc_eq(r.GetW()*r.GetW(), q.GetW()*q.GetW(), "ww");
}
//@ axis-angle: a unit quaternion that keeps the axis fixed and turns perpendicular vectors by the angle, right handed
VC_HARNESS(axis_angle) {
  Vector3D a = V("ax","ay","az"); vc_assume(a * a > 0); double t = vc_real("t");
  Quaternion q; q.SetAxisAngle(a, t);
  vc_cover("post");
  vc_eq(n2(q), 1, "unit"); VC_EQ3(q.rotate(a, false), a, "axis fixed");
  Vector3D n = a.normalized(); vc_eq(q.GetW(), std::cos(t/2), "half angle cosine");
  vc_eq(q.GetX()*n.GetX()+q.GetY()*n.GetY()+q.GetZ()*n.GetZ(), std::sin(t/2), "half angle sine");
  VC_EQ3(Vector3D(q.GetX(), q.GetY(), q.GetZ()), n * std::sin(t/2), "vector part along the axis");
}
//@ axis-angle round trip: the rotation rebuilt from the returned axis and angle is the original one
VC_HARNESS(axis_angle_round_trip) {
  Quaternion q = unit("qx","qy","qz","qw"); Vector3D a; double t;
  q.GetAxisAngle(a, t);
  vc_eq(a * a, 1, "unit axis"); vc_le(0, t, "angle nonnegative"); vc_le(t, 2 * M_PI, "angle upper");
  Quaternion r; r.SetAxisAngle(a, t); Vector3D v = V("vx","vy","vz");
  VC_EQ3(r.rotate(v, false), q.rotate(v, false), "same rotation");
  vc_cover("post");
}
//@ rotation_between(v0,v1) turns the direction of v0 into the direction of v1, for every pair of non-zero vectors
VC_HARNESS(rotation_between_generic) {
  Vector3D a = V("ax","ay","az"), b = V("bx","by","bz"); vc_assume(a * a > 0); vc_assume(b * b > 0);
  Vector3D u = a.normalized(), w = b.normalized(); vc_assume(u * w > -1);
  Quaternion q = rotation_between(a, b);
  vc_cover("post");
  vc_eq(n2(q), 1, "unit"); VC_EQ3(q.rotate(u, false), w, "direction mapped");
}
//@ rotation between exactly opposite directions maps one onto the other
VC_HARNESS(rotation_between_opposite) {
  Vector3D a = V("ax","ay","az"); vc_assume(a * a > 0);
  a = a * (1 / a.magnitude());
  vc_assume(a * -a == -1);
  Quaternion q = rotation_between(a, -a);
  vc_cover("post");
  vc_eq(n2(q), 1, "unit"); VC_EQ3(q.rotate(a, false), -a, "direction reversed");
}
static const EulerOrder ORD[24] = {XYZs,XYXs,XZYs,XZXs,YZXs,YZYs,YXZs,YXYs,ZXYs,ZXZs,ZYXs,ZYZs,ZYXr,XYXr,YZXr,XZXr,XZYr,YZYr,ZXYr,YXYr,YXZr,ZXZr,XYZr,ZYZr};
static const char* const NAME[24] = {"XYZs","XYXs","XZYs","XZXs","YZXs","YZYs","YXZs","YXYs","ZXYs","ZXZs","ZYXs","ZYZs","ZYXr","XYXr","YZXr","XZXr","XZYr","YZYr","ZXYr","YXYr","YXZr","ZXZr","XYZr","ZYZr"};
// the rotation an Euler triple denotes: successive turns about the named axes, static (s) or rotating (r) frame
static A3 euler_ref(const char* n, double ca, double sa, double cb, double sb, double cg, double sg, A3 v) {
  int a0 = n[0]-'X', a1 = n[1]-'X', a2 = n[2]-'X';
  if(n[3] == 's') { v = axis_rot(a0, ca, sa, v); v = axis_rot(a1, cb, sb, v); return axis_rot(a2, cg, sg, v); }
  v = axis_rot(a2, cg, sg, v); v = axis_rot(a1, cb, sb, v); return axis_rot(a0, ca, sa, v);
}
//@ every one of the 24 Euler orders: the quaternion of (alpha, beta, gamma) is the composition of the three named axis turns
VC_HARNESS(euler_quaternion) {
  int o = vc_choice("order", 24); double a = vc_real("alpha"), b = vc_real("beta"), g = vc_real("gamma");
  A3 v = {vc_real("vx"), vc_real("vy"), vc_real("vz")};
  vc_trig_half(a/2); vc_trig_half(b/2); vc_trig_half(g/2);
  Quaternion q = QuaternionFromEulerAngles(EulerAngles(ORD[o], 2*(a/2), 2*(b/2), 2*(g/2)));
  double ca = sq(std::cos(a/2))-sq(std::sin(a/2)), sa = 2*std::sin(a/2)*std::cos(a/2), cb = sq(std::cos(b/2))-sq(std::sin(b/2)), sb = 2*std::sin(b/2)*std::cos(b/2), cg = sq(std::cos(g/2))-sq(std::sin(g/2)), sg = 2*std::sin(g/2)*std::cos(g/2);
  vc_eq(n2(q), 1, "unit");
  Vector3D r = sandwich(q, Vector3D(v[0], v[1], v[2])); A3 e = euler_ref(NAME[o], ca, sa, cb, sb, cg, sg, v);
  vc_eq(r.GetX(), e[0], "composition [x]"); vc_eq(r.GetY(), e[1], "composition [y]"); vc_eq(r.GetZ(), e[2], "composition [z]");
  vc_cover("post");
}
//@ every one of the 24 Euler orders: the matrix of (alpha, beta, gamma) is the composition of the three named axis turns
VC_HARNESS(euler_matrix) {
  int o = vc_choice("order", 24); double a = vc_real("alpha"), b = vc_real("beta"), g = vc_real("gamma");
  A3 v = {vc_real("vx"), vc_real("vy"), vc_real("vz")};
  Vector3D r = Matrix3DFromEulerAngles(EulerAngles(ORD[o], a, b, g)) * Vector3D(v[0], v[1], v[2]);
  A3 e = euler_ref(NAME[o], std::cos(a), std::sin(a), std::cos(b), std::sin(b), std::cos(g), std::sin(g), v);
  vc_eq(r.GetX(), e[0], "composition [x]"); vc_eq(r.GetY(), e[1], "composition [y]"); vc_eq(r.GetZ(), e[2], "composition [z]");
  vc_cover("post");
}
//@ the two dedicated conversions agree with the general ones
VC_HARNESS(euler_special) {
  double a = vc_real("alpha"), b = vc_real("beta"), g = vc_real("gamma");
  vc_trig_add(0.5*a, 0.5*g); vc_trig_add(0.5*a, -(0.5*g));
  Quaternion q; q.SetEulerAnglesXYZs(a, b, g); EQQ(q, QuaternionFromEulerAngles(EulerAngles(XYZs, a, b, g)), "XYZs");
  Quaternion p; p.SetEulerAnglesZXZr(a, b, g); EQQ(p, QuaternionFromEulerAngles(EulerAngles(ZXZr, a, b, g)), "ZXZr");
  Quaternion s; s.SetEulerAngles(EulerAngles(XYZs, a, b, g)); EQQ(s, q, "SetEulerAngles");
  vc_cover("post");
}
//@ Euler angles extracted from a rotation matrix describe that rotation, for every order.  Every rotation outside gimbal lock is
//@ the turn of some (alpha, beta, gamma) with sin(beta) > 0 (repeated axis) or cos(beta) > 0 (three axes), so these are all inputs.
static void extract(int o) {
  double a = vc_real("alpha"), b = vc_real("beta"), g = vc_real("gamma");
  double ca = std::cos(a), sa = std::sin(a), cb = std::cos(b), sb = std::sin(b), cg = std::cos(g), sg = std::sin(g);
  const char* n = NAME[o]; vc_assume((n[0] == n[2] ? sb : cb) > 1e-3);
  A3 X = euler_ref(n, ca, sa, cb, sb, cg, sg, {1,0,0}), Y = euler_ref(n, ca, sa, cb, sb, cg, sg, {0,1,0}), Z = euler_ref(n, ca, sa, cb, sb, cg, sg, {0,0,1});
  Matrix3D m(X[0], Y[0], Z[0], X[1], Y[1], Z[1], X[2], Y[2], Z[2]);
  EulerAngles e = EulerAnglesFromMatrix3D(m, ORD[o]);
  vc_assert(e.GetOrder() == ORD[o], "order kept");
  double a2 = e.GetAlpha(), b2 = e.GetBeta(), g2 = e.GetGamma();
  double c0 = std::cos(a2), s0 = std::sin(a2), c1 = std::cos(b2), s1 = std::sin(b2), c2 = std::cos(g2), s2 = std::sin(g2);
  A3 X2 = euler_ref(n, c0, s0, c1, s1, c2, s2, {1,0,0}), Y2 = euler_ref(n, c0, s0, c1, s1, c2, s2, {0,1,0}), Z2 = euler_ref(n, c0, s0, c1, s1, c2, s2, {0,0,1});
  VC_EQA3(X2, X, "same rotation, column 0"); VC_EQA3(Y2, Y, "same rotation, column 1"); VC_EQA3(Z2, Z, "same rotation, column 2");
  vc_cover("post");
}
//@ Euler angles extracted from a matrix rebuild it (orders 0-5)
VC_HARNESS(euler_extract_0) { extract(vc_choice("order", 6)); }
//@ Euler angles extracted from a matrix rebuild it (orders 6-11)
VC_HARNESS(euler_extract_6) { extract(6 + vc_choice("order", 6)); }
//@ Euler angles extracted from a matrix rebuild it (orders 12-17)
VC_HARNESS(euler_extract_12) { extract(12 + vc_choice("order", 6)); }
//@ Euler angles extracted from a matrix rebuild it (orders 18-23)
VC_HARNESS(euler_extract_18) { extract(18 + vc_choice("order", 6)); }
