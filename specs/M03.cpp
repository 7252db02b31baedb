// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Quaternion.cxx projects/math/private/Matrix3D.cxx projects/math/private/EulerAngles.cxx projects/geometry/private/Placement.cxx
#include "common.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/geometry/Placement.h"
using namespace siren::math; using siren::geometry::Placement;
static Vector3D V(const char* x, const char* y, const char* z) { return Vector3D(vc_real(x), vc_real(y), vc_real(z)); }
static double n2(Quaternion const & q) { return q.GetX()*q.GetX()+q.GetY()*q.GetY()+q.GetZ()*q.GetZ()+q.GetW()*q.GetW(); }
static Quaternion Qnz() { Quaternion q(vc_real("qx"), vc_real("qy"), vc_real("qz"), vc_real("qw")); vc_assume(n2(q) > 0); return q; }
// a placement built in any of the ways the interface offers
static Placement any_placement() {
  Vector3D p = V("px","py","pz"); Quaternion q = Qnz();
  switch(vc_choice("how", 6)) {
    case 0: return Placement(p, q);
    case 1: return Placement(p);
    case 2: return Placement(q);
    case 3: { Placement a; a.SetPosition(p); a.SetQuaternion(q); return a; }
    case 4: { Placement a(p, q), b; b = a; return b; }
    default: { Placement a; Placement b(p, q); a.swap(b); return a; }
  }
}
//@ local->global and global->local are mutually inverse on positions and directions
VC_HARNESS(inverse) {
  Placement pl = any_placement(); Vector3D x = V("x","y","z");
  vc_cover("post");
  VC_EQ3(pl.GlobalToLocalPosition(pl.LocalToGlobalPosition(x)), x, "position there and back");
  VC_EQ3(pl.LocalToGlobalPosition(pl.GlobalToLocalPosition(x)), x, "position back and there");
  VC_EQ3(pl.GlobalToLocalDirection(pl.LocalToGlobalDirection(x)), x, "direction there and back");
  VC_EQ3(pl.LocalToGlobalDirection(pl.GlobalToLocalDirection(x)), x, "direction back and there");
}
//@ the transformation is a rigid motion: distances and angles kept, directions transform as differences of positions
VC_HARNESS(rigid) {
  Placement pl = any_placement(); Vector3D x = V("x","y","z"), u = V("ux","uy","uz"); double t = vc_real("t");
  Vector3D gx = pl.LocalToGlobalPosition(x), gu = pl.LocalToGlobalDirection(u);
  vc_cover("post");
  VC_EQ3(pl.LocalToGlobalPosition(x + u * t), gx + gu * t, "affine");
  vc_eq(gu * gu, u * u, "length kept");
  Vector3D w = V("wx","wy","wz"); vc_eq(pl.LocalToGlobalDirection(w) * gu, w * u, "angle kept");
  VC_EQ3(pl.GlobalToLocalPosition(x + u * t), pl.GlobalToLocalPosition(x) + pl.GlobalToLocalDirection(u) * t, "affine inverse");
}
//@ the translation part is the position, the rotation part the (normalised) quaternion
VC_HARNESS(parts) {
  Vector3D p = V("px","py","pz"); Quaternion q = Qnz(); vc_assume(std::fabs(n2(q) - 1) >= 1e-9 || n2(q) == 1);
  Placement pl(p, q); Vector3D x = V("x","y","z");
  VC_EQ3(pl.GetPosition(), p, "position"); vc_eq(n2(pl.GetQuaternion()), 1, "unit quaternion");
  VC_EQ3(pl.LocalToGlobalPosition(Vector3D(0,0,0)), p, "origin goes to the position");
  VC_EQ3(pl.LocalToGlobalDirection(x), q.rotate(x, false), "direction is rotated"); VC_EQ3(pl.Rotate(x, false), q.rotate(x, false), "Rotate"); VC_EQ3(pl.Rotate(x, true), q.rotate(x, true), "Rotate inverse");
  VC_EQ3(pl.GlobalToLocalDirection(x), q.rotate(x, true), "inverse direction");
  vc_cover("post");
}
//@ the identity shortcut may be taken only where the transformation really is the identity (to 1e-11 relative)
VC_HARNESS(identity_flag) {
  Placement pl = any_placement();
  if(vc_bool("moved")) { Placement other; other = std::move(pl); pl = other; }
  if(vc_bool("repositioned")) pl.SetPosition(V("p2x","p2y","p2z"));
  if(pl.IsIdentity()) {
    vc_cover("identity");
    Vector3D p = pl.GetPosition(); Quaternion q = pl.GetQuaternion();
    vc_assert(std::fabs(p.GetX()) < 1e-9 && std::fabs(p.GetY()) < 1e-9 && std::fabs(p.GetZ()) < 1e-9, "no translation");
    vc_assert(std::fabs(q.GetX()) < 1e-9, "no rotation [x]"); vc_assert(std::fabs(q.GetY()) < 1e-9, "no rotation [y]"); vc_assert(std::fabs(q.GetZ()) < 1e-9, "no rotation [z]");
  }
}
//@ a default placement is the identity
VC_HARNESS(default_identity) {
  Placement pl; Vector3D x = V("x","y","z"); VC_EQ3(pl.LocalToGlobalPosition(x), x, "default placement is the identity"); VC_EQ3(pl.GlobalToLocalPosition(x), x, "inverse too"); vc_assert(pl.IsIdentity(), "flag");
  vc_cover("post");
}
