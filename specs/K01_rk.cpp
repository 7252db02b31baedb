// Contracts of the four-vector library used by the final-state samplers.
// SOURCES: vendor/rk/rk/rk.cc vendor/rk/rk/geom3.cc
#include "common.h"
#include "rk/rk.hh"
#include "rk/geom3.hh"
#include "kin.h"
using rk::P4; using rk::Boost; using geom3::Vector3; using geom3::UnitVector3; using geom3::Rotation3;
static double small(const char* n) {
#ifdef VC_NATIVE
  return std::fmod(vc_real(n), 10);
#else
  return vc_real(n);
#endif
}
static double nonneg(const char* n) {
#ifdef VC_NATIVE
  return std::fabs(small(n));
#else
  double x = vc_real(n); vc_assume(x >= 0); return x;
#endif
}
static UnitVector3 unit() {     // any unit vector
  double x = small("x"), y = small("y"), z = small("z");
#ifdef VC_NATIVE
  double l = std::sqrt(x * x + y * y + z * z); vc_assume(l > 1e-3); return UnitVector3(x, y, z, l);
#else
  vc_assume(x * x + y * y + z * z == 1); return UnitVector3(x, y, z, false);
#endif
}
//@ P4::boost by a boost (n, gamma, s): the Lorentz transformation p + n ((gamma-1) n.p - s e), gamma e - s n.p; the mass is kept
VC_HARNESS(boost) {
  UnitVector3 n = unit();
  double s = small("s"), g = std::sqrt(1 + s * s), m = nonneg("m"); Vector3 p(small("px"), small("py"), small("pz"));
  P4 q(p, m); double e = q.e(), par = n.x() * p.x() + n.y() * p.y() + n.z() * p.z();
  vc_eq(n.x() * n.x() + n.y() * n.y() + n.z() * n.z(), 1, "a unit vector");
  vc_le(par * par, p.x() * p.x() + p.y() * p.y() + p.z() * p.z(), "Cauchy-Schwarz"); vc_le(par * par, e * e, "the parallel momentum is at most the energy"); vc_le(s * s, g * g, "a boost is slower than light"); vc_le(par, e, "the parallel momentum is at most the energy"); vc_le(-e, par, "the parallel momentum is at most the energy"); vc_le(s, g, "a boost is slower than light"); vc_le(-g, s, "a boost is slower than light");
  double E = g * e - s * par; vc_le(0, E, "the boosted energy is positive");
  double k = (g - 1) * par - s * e; vc_eq(E * E, m * m + (sq(p.x() + n.x() * k) + sq(p.y() + n.y() * k) + sq(p.z() + n.z() * k)), "energy squared"); P4 & r = q.boost(Boost(n, g, s));
  vc_eq(r.px(), p.x() + n.x() * k, "momentum x"); vc_eq(r.py(), p.y() + n.y() * k, "momentum y"); vc_eq(r.pz(), p.z() + n.z() * k, "momentum z");
  vc_eq(r.e(), E, "energy"); vc_eq(r.m(), m, "the mass is kept"); vc_assert(&r == &q, "changes the four-vector in place");
  vc_eq(g * r.e() + s * (n.x() * r.px() + n.y() * r.py() + n.z() * r.pz()), e, "the energy seen from the first frame"); vc_eq(sq(r.e()) - (sq(r.px()) + sq(r.py()) + sq(r.pz())), sq(m), "the mass shell");
  vc_cover("boost");
}
//@ P4::labBoost and restBoost: along the momentum, gamma = E/M, from rest to the lab and back
VC_HARNESS(frames) {
  double m = nonneg("m"); vc_assume(m > (VC_TINY)); Vector3 p(small("px"), small("py"), small("pz")); P4 q(p, m); Boost a = q.labBoost(), b = q.restBoost(); double l = std::sqrt(p.x() * p.x() + p.y() * p.y() + p.z() * p.z());
  vc_eq(a.gamma() * m, q.e(), "gamma of the lab boost"); vc_eq(b.gamma() * m, q.e(), "gamma of the rest boost"); vc_eq(a.betaGamma() * m, -l, "beta gamma of the lab boost"); vc_eq(b.betaGamma() * m, l, "beta gamma of the rest boost");
  vc_eq(a.direction().x() * l, p.x(), "along x"); vc_eq(a.direction().y() * l, p.y(), "along y"); vc_eq(a.direction().z() * l, p.z(), "along z"); vc_eq(b.direction().x() * l, p.x(), "along x"); vc_eq(b.direction().y() * l, p.y(), "along y"); vc_eq(b.direction().z() * l, p.z(), "along z");
  vc_eq(sq(a.direction().x()) + sq(a.direction().y()) + sq(a.direction().z()), 1, "a unit vector");
  vc_cover("frames");
}
//@ Rotation3 about an axis: lengths and the component along the axis are kept
VC_HARNESS(rotation) {
  UnitVector3 n = unit(); vc_eq(sq(n.x()) + sq(n.y()) + sq(n.z()), 1, "a unit vector");
  Vector3 p(small("px"), small("py"), small("pz")); vc_assume(sq(p.x()) + sq(p.y()) + sq(p.z()) > VC_TINY); double phi = small("phi"); Rotation3 r(n, phi); Vector3 w = r.rotate(p);
  vc_eq(w.x() * w.x() + w.y() * w.y() + w.z() * w.z(), p.x() * p.x() + p.y() * p.y() + p.z() * p.z(), "the length is kept");
  vc_eq(w.x() * n.x() + w.y() * n.y() + w.z() * n.z(), p.x() * n.x() + p.y() * n.y() + p.z() * n.z(), "the component along the axis is kept");
  vc_eq(w.length(), p.length(), "the length is kept"); P4 q(p, nonneg("m")); double e = q.e(), m = q.m(); q.rotate(r);
  vc_eq(q.px(), w.x(), "x"); vc_eq(q.py(), w.y(), "y"); vc_eq(q.pz(), w.z(), "z"); vc_eq(q.e(), e, "the energy is kept"); vc_eq(q.m(), m, "the mass is kept");
  vc_cover("rotation");
}
//@ rotationBetween: turns the x axis into the given direction (up to its tolerance of 1e-9 around the axis)
VC_HARNESS(between) {
  UnitVector3 n = unit(); vc_eq(sq(n.x()) + sq(n.y()) + sq(n.z()), 1, "a unit vector");
  vc_assume(n.x() == 1 || n.x() == -1 || std::fabs(std::fabs(n.x()) - 1) > 1e-8);
  Rotation3 r = geom3::rotationBetween(UnitVector3::xAxis(), n); Vector3 p(small("px"), small("py"), small("pz")), w = r.rotate(p);
  vc_eq(w.x() * n.x() + w.y() * n.y() + w.z() * n.z(), p.x(), "the x component becomes the component along the direction");
  vc_eq(w.x() * w.x() + w.y() * w.y() + w.z() * w.z(), p.x() * p.x() + p.y() * p.y() + p.z() * p.z(), "the length is kept");
  vc_cover("between");
}
