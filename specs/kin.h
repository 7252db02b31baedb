#pragma once
#ifdef VC_NATIVE
#define VC_TINY 1e-3
#else
#define VC_TINY 0
#endif
// ---- contracts of the four-vector library (checked against its code in K01_rk) --------------------------------
#include "rk/rk.hh"
#include "rk/geom3.hh"
#ifndef VC_NATIVE
static struct { geom3::UnitVector3 a, b; } kin_rot[8]; static int kin_nrot = 0, kin_nw = 0; static double kin_phi = -1;
static const char* kin_nm[3][12] = {{"w0x", "w1x", "w2x", "w3x", "w4x", "w5x", "w6x", "w7x", "w8x", "w9x", "wax", "wbx"}, {"w0y", "w1y", "w2y", "w3y", "w4y", "w5y", "w6y", "w7y", "w8y", "w9y", "way", "wby"}, {"w0z", "w1z", "w2z", "w3z", "w4z", "w5z", "w6z", "w7z", "w8z", "w9z", "waz", "wbz"}};
// any rotation turning a into b
extern "C" geom3::Rotation3 vcs_between(geom3::UnitVector3 const & a, geom3::UnitVector3 const & b) {
  geom3::Rotation3 r; kin_rot[kin_nrot].a = a; kin_rot[kin_nrot].b = b; r.angle_ = kin_nrot; ++kin_nrot; return r;
}
// the rotation about an axis keeps the axis
extern "C" void vcs_axisrot(geom3::Rotation3* self, geom3::UnitVector3 const & n, double phi) {
  kin_rot[kin_nrot].a = n; kin_rot[kin_nrot].b = n; self->angle_ = kin_nrot; kin_phi = phi; ++kin_nrot;
}
// a rotated momentum has the same length, and the component along b that it had along a
extern "C" rk::P4* vcs_rotate(rk::P4* self, geom3::Rotation3 const & r) {
  geom3::Vector3 & p = self->p_; int k = (int)r.angle_, i = kin_nw++; auto const & a = kin_rot[k].a; auto const & b = kin_rot[k].b;
  double x = vc_real(kin_nm[0][i]), y = vc_real(kin_nm[1][i]), z = vc_real(kin_nm[2][i]);
  vc_assume(x * x + y * y + z * z == p.x_ * p.x_ + p.y_ * p.y_ + p.z_ * p.z_); vc_assume(x * b.x_ + y * b.y_ + z * b.z_ == p.x_ * a.x_ + p.y_ * a.y_ + p.z_ * a.z_);
  p.x_ = x; p.y_ = y; p.z_ = z; p.l_ = -1; return self;
}
// the Lorentz transformation by its invariants: the mass shell, the energy, the energy seen from the frame the momentum came from
static struct { double e, par, x, y, z, E; } kin_b[4]; static int kin_nb = 0;
extern "C" rk::P4* vcs_boost(rk::P4* self, rk::Boost const & b) {
  geom3::Vector3 & p = self->p_; double g = 1 + b.c_, s = b.s_, e = self->e_, par = b.dir_.x_ * p.x_ + b.dir_.y_ * p.y_ + b.dir_.z_ * p.z_; int i = kin_nw++;
  vc_assert(self->m_ >= 0, "the mass is known before a boost");
  double x = vc_real(kin_nm[0][i]), y = vc_real(kin_nm[1][i]), z = vc_real(kin_nm[2][i]), E = g * e - s * par;
  vc_assume(E >= 0); vc_assume(sq(E) - (sq(x) + sq(y) + sq(z)) == sq(self->m_)); vc_assume(g * E + s * (b.dir_.x_ * x + b.dir_.y_ * y + b.dir_.z_ * z) == e);
  kin_b[kin_nb].e = e; kin_b[kin_nb].par = par; kin_b[kin_nb].x = x; kin_b[kin_nb].y = y; kin_b[kin_nb].z = z; kin_b[kin_nb].E = E; ++kin_nb;
  p.x_ = x; p.y_ = y; p.z_ = z; p.l_ = -1; self->e_ = E; return self;
}
extern "C" double vcs_uniform(void*, double a, double b);
#endif
