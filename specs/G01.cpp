// Solids: the reported intersections of a line bracket exactly the part of the line that lies inside.
// SOURCES: projects/math/private/Vector3D.cxx projects/math/private/Quaternion.cxx projects/math/private/Matrix3D.cxx projects/math/private/EulerAngles.cxx projects/geometry/private/Placement.cxx projects/geometry/private/Geometry.cxx projects/geometry/private/Box.cxx projects/geometry/private/Sphere.cxx projects/geometry/private/BooleanGeometry.cxx
// ASSUMES: the third-party NamedType header (absent here) is stood in for by /verif/vc/stubs (a plain wrapper)
// ASSUMES: lines graze no surface at the tested point; crossings closer than 1e-9 in front of the start count as at the start (as documented)
// REPLACE: siren::geometry::Geometry::RecomputeWorldAABB() const => vcs_nobox
// REPLACE: siren::geometry::Geometry::GetWorldBoundingBox() const => vcs_world
// OPTS combined: max_paths=20000
#include "common.h"
#include <new>
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/geometry/Placement.h"
#include "SIREN/geometry/AABB.h"
#include "SIREN/geometry/Geometry.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/BooleanGeometry.h"
using namespace siren::math; using namespace siren::geometry;
typedef std::vector<Geometry::Intersection> Hits;
extern "C" void vcs_nobox(Geometry const *) {}
static Vector3D V(const char* x, const char* y, const char* z) { return Vector3D(vc_real(x), vc_real(y), vc_real(z)); }
static Vector3D direction() { Vector3D d = V("dx","dy","dz"); vc_assume(d * d > 0); return d; }
static void ordered(Vector3D const & a, Vector3D const & b) { vc_assume(a.GetX() <= b.GetX()); vc_assume(a.GetY() <= b.GetY()); vc_assume(a.GetZ() <= b.GetZ()); }
struct Boxed : public Geometry {
  AABB bb; Boxed(AABB const & bb, Placement const & pl = Placement()) : Geometry("Boxed", pl), bb(bb) {}
  std::shared_ptr<Geometry> create() const override { return nullptr; }
  bool equal(Geometry const &) const override { return false; }
  bool less(Geometry const &) const override { return false; }
  void print(std::ostream &) const override {}
  AABB GetBoundingBox() const override { return bb; }
  Hits ComputeIntersections(Vector3D const &, Vector3D const &) const override { return {}; }
};
extern "C" void vcs_world(AABB* out, Geometry const * g) { new (out) AABB(static_cast<Boxed const *>(g)->bb); }   // contract: some box around the solid in its outer frame (G01_bounds)
// a parameter along the line, not in the zone where crossings are pulled back to the start
static double parameter() { double s = vc_real("s"); vc_assume(s <= 0 || s >= 1e-9); return s; }
static int inside_count(Hits const & h, double s) { int n = 0; for(auto const & x : h) if(x.distance < s) n += x.entering ? 1 : -1; return n; }
static void check_hits(Hits const & h, Vector3D const & p, Vector3D const & d) {
  for(size_t i = 0; i < h.size(); ++i) {
    VC_EQ3(h[i].position, p + d * h[i].distance, "the position of a hit is on the line at its distance");
    if(i) vc_le(h[i-1].distance, h[i].distance, "hits are in order");
  }
}
// any solid: up to n/2 separate stretches of the line are inside
struct Solid : public Geometry {
  int n; double t[4]; mutable Vector3D lp, ld; mutable int asked;
  Solid(int n, const char* const * names, Placement const & pl = Placement()) : Geometry("Solid", pl), n(n), asked(0) { for(int i = 0; i < n; ++i) { t[i] = vc_real(names[i]);
#ifdef VC_NATIVE
      if(i && !(t[i] - t[i-1] >= 1e-9)) t[i] = t[i-1] + 1e-3 + std::fabs(t[i]);
#endif
      if(i) vc_assume(t[i] - t[i-1] >= 1e-9); } }
  std::shared_ptr<Geometry> create() const override { return nullptr; }
  bool equal(Geometry const &) const override { return false; }
  bool less(Geometry const &) const override { return false; }
  void print(std::ostream &) const override {}
  AABB GetBoundingBox() const override { return AABB(); }
  Hits ComputeIntersections(Vector3D const & p, Vector3D const & d) const override {
    lp = p; ld = d; ++asked; Hits h;
    for(int i = 0; i < n; ++i) { Geometry::Intersection x; x.distance = t[i]; x.hierarchy = 0; x.entering = i % 2 == 0; x.matID = 0; x.position = p + d * t[i]; h.push_back(x); }
    return h;
  }
  int count(double s) const { int c = 0; for(int i = 0; i < n; ++i) if(t[i] < s) c += i % 2 == 0 ? 1 : -1; return c; }
};
static const char* const LN[4] = {"l0","l1","l2","l3"}; static const char* const RN[4] = {"r0","r1","r2","r3"};
static void boolean(int nl, int nr) {
  auto l = std::make_shared<Solid>(nl, LN); auto r = std::make_shared<Solid>(nr, RN);
  for(int i = 0; i < nl; ++i) for(int j = 0; j < nr; ++j) { double g = l->t[i] - r->t[j]; vc_assume(g == 0 || g >= 1e-9 || g <= -1e-9); }
  int op = vc_choice("op", 3); BooleanGeometry b(op == 0 ? BooleanOperation::UNION : op == 1 ? BooleanOperation::INTERSECTION : BooleanOperation::SUBTRACTION, l, r);
  Vector3D p = V("px","py","pz"), d = direction(); Hits h = b.Intersections(p, d);
  double s = vc_real("s"); for(int i = 0; i < nl; ++i) vc_assume(s != l->t[i]); for(int i = 0; i < nr; ++i) vc_assume(s != r->t[i]);
  bool a = l->count(s) == 1, c = r->count(s) == 1, in = op == 0 ? (a || c) : op == 1 ? (a && c) : (a && !c);
  check_hits(h, p, d);
  vc_assert(inside_count(h, s) == (in ? 1 : 0), "inside exactly where the operation of the two solids says");
  for(size_t i = 0; i < h.size(); ++i) { vc_assert(h[i].entering == (i % 2 == 0), "entries and exits alternate"); if(i) vc_assert(h[i-1].distance < h[i].distance, "no stretch of zero length"); }
  if(h.size()) vc_cover("hit");
}
static void box(Vector3D const & d) {
  double wx = vc_pos("wx"), wy = vc_pos("wy"), wz = vc_pos("wz"); Vector3D p = V("px","py","pz");
  double s = parameter(); Vector3D q = p + d * s; double x = q.GetX(), y = q.GetY(), z = q.GetZ(); int where = vc_choice("where", 7);
  switch(where) {
    case 0: vc_assume(x < wx / 2); vc_assume(-x < wx / 2); vc_assume(y < wy / 2); vc_assume(-y < wy / 2); vc_assume(z < wz / 2); vc_assume(-z < wz / 2); break;
    case 1: vc_assume(x > wx / 2); break; case 2: vc_assume(-x > wx / 2); break;
    case 3: vc_assume(y > wy / 2); break; case 4: vc_assume(-y > wy / 2); break;
    case 5: vc_assume(z > wz / 2); break; case 6: vc_assume(-z > wz / 2); break;
  }
  Box b(wx, wy, wz); Hits h = b.Intersections(p, d);
  check_hits(h, p, d);
  vc_assert(inside_count(h, s) == (where == 0 ? 1 : 0), "inside exactly between entry and exit");
  if(where == 0) vc_cover("in"); else if(h.size()) vc_cover("out");
}
static void box_octant(int o) {
  Vector3D d = V("dx","dy","dz"); vc_assume(o & 1 ? d.GetX() > 0 : d.GetX() < 0); vc_assume(o & 2 ? d.GetY() > 0 : d.GetY() < 0); vc_assume(o & 4 ? d.GetZ() > 0 : d.GetZ() < 0); box(d);
}
//@ Box: along any line, a point is inside exactly if one more entry than exit lies before it; hits lie on the line, in order (upward lines)
VC_HARNESS(box_up) { box_octant(4 + vc_choice("octant", 4)); }
//@ Box: downward lines
VC_HARNESS(box_down) { box_octant(vc_choice("octant", 4)); }
//@ Box: lines parallel to a face or an edge
VC_HARNESS(box_parallel) {
  double a = vc_real("da"), c = vc_real("dc"); vc_assume(a > 0 || a < 0); int k = vc_choice("axis", 6);
  if(k >= 3) { c = 0; k -= 3; } else vc_assume(c > 0 || c < 0);
  box(k == 0 ? Vector3D(0, a, c) : k == 1 ? Vector3D(c, 0, a) : Vector3D(a, c, 0));
}
//@ Sphere and spherical shell: the same
VC_HARNESS(sphere) {
  double R = vc_pos("R"), r = vc_bool("hollow") ? vc_pos("r") : 0; vc_assume(r < R);
  // any line: closest to the origin at distance h (in any direction perpendicular to it) after the path b; every position and direction is of this form
  double t = vc_range("theta", 0, M_PI), f = vc_range("phi", -M_PI, M_PI), g = vc_range("psi", -M_PI, M_PI), b0 = vc_real("b"), h0 = vc_pos("h");
  if(vc_bool("central")) h0 = 0;
  Vector3D d(std::sin(t) * std::cos(f), std::sin(t) * std::sin(f), std::cos(t)), e1(std::cos(t) * std::cos(f), std::cos(t) * std::sin(f), -std::sin(t)), e2(-std::sin(f), std::cos(f), 0);
  Vector3D p = e1 * (h0 * std::cos(g)) + e2 * (h0 * std::sin(g)) - d * b0;
  double s = parameter(), q2 = (s - b0) * (s - b0) + h0 * h0; int where = vc_choice("where", 3);
  switch(where) { case 0: vc_assume(q2 < R * R); vc_assume(r * r < q2); break; case 1: vc_assume(q2 < r * r); break; case 2: vc_assume(q2 > R * R); break; }
  Sphere b = vc_bool("swapped") ? Sphere(r, R) : Sphere(R, r); Hits h = b.Intersections(p, d);
  check_hits(h, p, d);
  vc_assert(inside_count(h, s) == (where == 0 ? 1 : 0), "inside exactly between entry and exit");
  if(where == 0) vc_cover("in"); else if(h.size()) vc_cover("out");
}
//@ BooleanGeometry: union, intersection and difference of any two solids with one stretch each
VC_HARNESS(boolean_one) { boolean(2, 2); }
//@ BooleanGeometry: a solid entered twice combined with one entered once
VC_HARNESS(boolean_two_one) { boolean(4, 2); }
//@ BooleanGeometry: a solid entered once combined with one entered twice
VC_HARNESS(boolean_one_two) { boolean(2, 4); }
//@ BooleanGeometry with an operand the line misses, or none
VC_HARNESS(boolean_missed) { if(vc_bool("left")) boolean(2, 0); else boolean(0, 2); }
static Placement any_placement() {
  Quaternion q(vc_real("qx"), vc_real("qy"), vc_real("qz"), vc_real("qw"));
#ifdef VC_NATIVE
  { double n = std::sqrt(q.GetX()*q.GetX()+q.GetY()*q.GetY()+q.GetZ()*q.GetZ()+q.GetW()*q.GetW()); vc_assume(n > 1e-6 && n < 1e6); q = Quaternion(q.GetX()/n, q.GetY()/n, q.GetZ()/n, q.GetW()/n); return Placement(V("ox","oy","oz"), q); }
#endif
  vc_assume(q.GetX()*q.GetX()+q.GetY()*q.GetY()+q.GetZ()*q.GetZ()+q.GetW()*q.GetW() == 1);
  return Placement(V("ox","oy","oz"), q);
}
//@ any placed solid is asked in its own frame, and its hits are reported on the line in the global frame, with distances and senses unchanged
VC_HARNESS(placed) {
  Placement pl = any_placement(); vc_assume(!pl.IsIdentity()); Solid g(2, LN, pl); Vector3D p = V("px","py","pz"), d = direction();
  Hits h;
  if(vc_bool("local")) { auto ld = g.ToLocal(p, d); h = g.Intersections(ld.first, ld.second); } else h = g.Intersections(p, d);
  vc_assert(g.asked == 1, "asked once");
  VC_EQ3(pl.LocalToGlobalPosition(g.lp), p, "asked at the local position"); VC_EQ3(pl.LocalToGlobalDirection(g.ld), d, "asked along the local direction");
  vc_assert(h.size() == 2, "every hit is reported");
  for(int i = 0; i < 2; ++i) { vc_eq(h[i].distance, g.t[i], "distance"); vc_assert(h[i].entering == (i == 0), "sense"); VC_EQ3(h[i].position, p + d * g.t[i], "position on the global line"); }
  vc_cover("post");
}
//@ a point is inside a solid exactly if the next crossing in front of it is an exit
VC_HARNESS(is_inside) {
  Placement pl = any_placement(); Solid g(4, LN, pl); Vector3D p = V("px","py","pz"), d = direction(); bool given = vc_bool("given");
  bool in = given ? g.IsInside(p, d) : g.IsInside(p);
  VC_EQ3(pl.LocalToGlobalPosition(g.lp), p, "asked at the local position"); if(given) VC_EQ3(pl.LocalToGlobalDirection(g.ld), d, "asked along the local direction");
  vc_assume(g.t[0] <= 0 || g.t[0] > 1e-9); vc_assume(g.t[1] <= 0 || g.t[1] > 1e-9); vc_assume(g.t[2] <= 0 || g.t[2] > 1e-9); vc_assume(g.t[3] <= 0 || g.t[3] > 1e-9);
  for(int i = 0; i < 4; ++i) vc_assume(g.t[i] != 0);
  vc_assert(in == (g.count(0) == 1), "inside between entry and exit");
  Vector3D lp = pl.GlobalToLocalPosition(p), ld = pl.GlobalToLocalDirection(d);
  vc_eq(g.DistanceToClosestApproach(p, d), -(lp * ld), "distance to the closest approach");
  if(in) vc_cover("in"); else vc_cover("out");
}
//@ ray-box test of bounding boxes: true exactly if the line meets the box, with the parameters where it enters and leaves
VC_HARNESS(ray_box) {
  Vector3D lo = V("x0","y0","z0"), hi = V("x1","y1","z1"); vc_assume(lo.GetX() <= hi.GetX()); vc_assume(lo.GetY() <= hi.GetY()); vc_assume(lo.GetZ() <= hi.GetZ());
  Vector3D p = V("px","py","pz"), d = direction(); AABB b(lo, hi); double t0, t1;
  Vector3D inv(1 / d.GetX(), 1 / d.GetY(), 1 / d.GetZ());
  bool hit = RayAABBIntersect(p, inv, b, t0, t1); vc_assert(hit == RayAABBIntersect(p, inv, b), "both forms agree");
  double s = vc_real("s"); Vector3D q = p + d * s;
  bool in = q.GetX() >= lo.GetX() && q.GetX() <= hi.GetX() && q.GetY() >= lo.GetY() && q.GetY() <= hi.GetY() && q.GetZ() >= lo.GetZ() && q.GetZ() <= hi.GetZ();
  vc_assert(b.Contains(q) == in, "contains");
  vc_assert(in == (hit && t0 <= s && s <= t1), "inside exactly between the two parameters");
  if(hit) vc_cover("hit"); else vc_cover("miss");
}
//@ growing a bounding box keeps what it contained and adds the given point or box
VC_HARNESS(grow_box) {
  Vector3D lo = V("x0","y0","z0"), hi = V("x1","y1","z1"), x = V("x","y","z"), p = V("px","py","pz"), u = V("ux","uy","uz"); AABB b(lo, hi), c = b; c.ExpandToInclude(p);
  vc_assume(b.IsValid()); vc_assert(c.Contains(p), "the new point"); if(b.Contains(x)) { vc_cover("inside"); vc_assert(c.Contains(x), "what was inside stays inside"); }
  AABB e = b; AABB f(p, u); vc_assume(f.IsValid()); e.ExpandToInclude(f); if(f.Contains(x)) vc_assert(e.Contains(x), "the new box"); if(b.Contains(x)) vc_assert(e.Contains(x), "the old box");
}
static Vector3D W(const char* x, const char* y, const char* z) { return Vector3D(vc_range(x, -1e100, 1e100), vc_range(y, -1e100, 1e100), vc_range(z, -1e100, 1e100)); }   // far below the largest double
//@ BooleanGeometry: the bounding box contains every point of the combination
VC_HARNESS(combined) {
  Vector3D q = W("x","y","z"), a = W("ax","ay","az"), b = W("bx","by","bz"), c = W("cx","cy","cz"), d = W("dx","dy","dz"); AABB A(a, b), B(c, d); ordered(a, b); ordered(c, d);
  bool in_l = vc_bool("left") , in_r = vc_bool("right"); if(in_l) { ordered(a, q); ordered(q, b); } if(in_r) { ordered(c, q); ordered(q, d); }
  int op = vc_choice("op", 3); vc_assume(op == 0 ? in_l || in_r : op == 1 ? in_l && in_r : in_l && !in_r); vc_cover("post");
  BooleanGeometry g(op == 0 ? BooleanOperation::UNION : op == 1 ? BooleanOperation::INTERSECTION : BooleanOperation::SUBTRACTION, std::make_shared<Boxed>(A), std::make_shared<Boxed>(B));
  vc_assert(g.GetBoundingBox().Contains(q), "contains");
}
