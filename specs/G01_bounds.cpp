// Bounding boxes contain their solid, in the local and in the world frame.
// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Quaternion.cxx projects/math/private/Matrix3D.cxx projects/math/private/EulerAngles.cxx projects/geometry/private/Placement.cxx projects/geometry/private/Geometry.cxx projects/geometry/private/Box.cxx projects/geometry/private/Sphere.cxx projects/geometry/private/Cylinder.cxx
// ASSUMES: coordinates are far below the largest double (1e100)
#include "common.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/geometry/Placement.h"
#include "SIREN/geometry/AABB.h"
#include "SIREN/geometry/Geometry.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Cylinder.h"
using namespace siren::math; using namespace siren::geometry;
typedef std::vector<Geometry::Intersection> Hits;
static double co(const char* n) { return vc_range(n, -1e100, 1e100); }
static Vector3D V(const char* x, const char* y, const char* z) { return Vector3D(co(x), co(y), co(z)); }
static double len(const char* n) { double x = vc_pos(n); vc_assume(x < 1e100); return x; }
struct Boxed : public Geometry {
  AABB bb; Boxed(AABB const & bb, Placement const & pl = Placement()) : Geometry("Boxed", pl), bb(bb) {}
  std::shared_ptr<Geometry> create() const override { return nullptr; }
  bool equal(Geometry const &) const override { return false; }
  bool less(Geometry const &) const override { return false; }
  void print(std::ostream &) const override {}
  AABB GetBoundingBox() const override { return bb; }
  Hits ComputeIntersections(Vector3D const &, Vector3D const &) const override { return {}; }
};
//@ Box, Sphere, Cylinder: the bounding box contains every point of the solid, in the local and (unplaced) in the world frame, also after copying
VC_HARNESS(shapes) {
  Vector3D q = V("x","y","z"); double x = q.GetX(), y = q.GetY(), z = q.GetZ(), R = len("R"), r = len("r"), H = len("H"), K = len("K"); vc_assume(r < R); vc_cover("post");
  switch(vc_choice("shape", 3)) {
    case 0: { vc_assume(std::fabs(x) <= R / 2); vc_assume(std::fabs(y) <= H / 2); vc_assume(std::fabs(z) <= K / 2); Box b(R, H, K); vc_assert(b.GetBoundingBox().Contains(q), "box"); Box c(b); vc_assert(c.GetWorldBoundingBox().Contains(q), "box, world"); break; }
    case 1: { vc_assume(x * x + y * y + z * z <= R * R); Sphere b(R, r); vc_assert(b.GetBoundingBox().Contains(q), "sphere"); Sphere c(b); vc_assert(c.GetWorldBoundingBox().Contains(q), "sphere, world"); break; }
    default: { vc_assume(x * x + y * y <= R * R); vc_assume(std::fabs(z) <= H / 2); Cylinder b(R, r, H); vc_assert(b.GetBoundingBox().Contains(q), "cylinder"); Cylinder c(b); vc_assert(c.GetWorldBoundingBox().Contains(q), "cylinder, world"); break; }
  }
}
//@ the world bounding box of a placed solid contains the image of every corner of its local bounding box (hence, being convex, of the whole box); any box, any translation, eight rotations
VC_HARNESS(world) {
  Vector3D a = V("ax","ay","az"), b = V("bx","by","bz"); AABB A(a, b); vc_assume(a.GetX() < b.GetX()); vc_assume(a.GetY() < b.GetY()); vc_assume(a.GetZ() < b.GetZ());
  static const double Q[8][4] = {{0, 0, 0, 1}, {1, 0, 0, 0}, {.5, .5, .5, .5}, {.6, 0, 0, .8}, {0, -.6, 0, .8}, {0, 0, .6, .8}, {.5, -.5, .5, -.5}, {0, 0, 1, 0}};
  int n = vc_choice("rotation", 8), k = vc_choice("corner", 8); Placement pl(V("ox","oy","oz"), Quaternion(Q[n][0], Q[n][1], Q[n][2], Q[n][3])); Boxed g(A, pl); AABB w = g.GetWorldBoundingBox();
  Vector3D c(k & 1 ? b.GetX() : a.GetX(), k & 2 ? b.GetY() : a.GetY(), k & 4 ? b.GetZ() : a.GetZ()), C = pl.LocalToGlobalPosition(c);
  vc_le(w.min_corner.GetX(), C.GetX(), "x"); vc_le(w.min_corner.GetY(), C.GetY(), "y"); vc_le(w.min_corner.GetZ(), C.GetZ(), "z");
  vc_le(C.GetX(), w.max_corner.GetX(), "x"); vc_le(C.GetY(), w.max_corner.GetY(), "y"); vc_le(C.GetZ(), w.max_corner.GetZ(), "z"); vc_cover("post");
}
