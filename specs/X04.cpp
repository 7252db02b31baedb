// Identity of distributions: equality, ordering, copies; masses, helicities, normalisation constants.
// SOURCES: projects/distributions/private/Distributions.cxx projects/distributions/private/primary/energy/PrimaryEnergyDistribution.cxx projects/distributions/private/primary/energy/PowerLaw.cxx projects/distributions/private/primary/energy/Monoenergetic.cxx projects/distributions/private/primary/energy/PiDARNuEDistribution.cxx projects/distributions/private/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.cxx projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx projects/distributions/private/primary/energy_direction/PrimaryEnergyDirectionDistribution.cxx projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx projects/distributions/private/primary/direction/PrimaryDirectionDistribution.cxx projects/distributions/private/primary/direction/Cone.cxx projects/distributions/private/primary/direction/FixedDirection.cxx projects/distributions/private/primary/direction/IsotropicDirection.cxx projects/distributions/private/primary/mass/PrimaryMass.cxx projects/distributions/private/primary/helicity/PrimaryNeutrinoHelicityDistribution.cxx projects/utilities/private/Random.cxx projects/utilities/private/Interpolator.cxx projects/math/private/Vector3D.cxx projects/math/private/Quaternion.cxx projects/math/private/Matrix3D.cxx projects/math/private/EulerAngles.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx
// REPLACE: ~rombergIntegrate<std::function => vcs_romberg
// REPLACE: ~simpsonIntegrate2D<std::function => vcs_simpson
// REPLACE: siren::utilities::Interpolator1D<double>::operator()(double const&) const => vcs_interp
// REPLACE: siren::utilities::Interpolator1D<double>::AddTable(siren::utilities::TableData1D<double>&) => vcs_addtable
// OPTS cone_axis: limit=500
// IRFLAGS: -fno-inline
// ASSUMES: one-dimensional tables are positive functions identified by their nodes and values (property U01)
// ASSUMES: rombergIntegrate and simpsonIntegrate2D give a positive number (accuracy: property U02)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/utilities/Interpolator.h"
#include <functional>
using namespace siren::distributions; using siren::math::Vector3D;
using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::InteractionRecord; using siren::dataclasses::ParticleType;
extern "C" double vcs_romberg(std::function<double(double)> const &, double, double, double) { return 1; }
extern "C" double vcs_simpson(std::function<double(double, double)> const &, double, double, double, double, double, unsigned, unsigned, unsigned) { return 1; }
typedef siren::utilities::Interpolator1D<double> Interp;
extern "C" void vcs_addtable(Interp * p, siren::utilities::TableData1D<double> & t) { p->original_table = t; }
extern "C" double vcs_interp(Interp const *, double const & x) { double v = vc_fun1("flux1", x); vc_assume(v > 0); return v; }
// exactly one of a < b, b < a, a == b; equality is the expected one, symmetric
static void compare(WeightableDistribution const & a, WeightableDistribution const & b, bool same) {
  bool e = a == b, f = b == a, l = a < b, g = b < a;
  vc_assert(e == same, "equal exactly when they describe the same distribution"); vc_assert(e == f, "equality is symmetric");
  vc_assert((int)e + (int)l + (int)g == 1, "exactly one of less, equal, greater");
  vc_assert(a == a && !(a < a), "a distribution equals itself");
}
template<class D> static void copies(D const & d) {
  auto c = d.clone(); vc_assert(*c == d && d == *c && !(*c < d) && !(d < *c), "a copy equals its original"); vc_assert(c.get() != (void*)&d, "a copy is another object");
}
#ifdef VC_NATIVE
static double tie(const char* n, double x, double y) { return vc_choice(n, 2) ? x : y; }     // equal values must occur in the search
#else
static double tie(const char*, double x, double) { return x; }
#endif
//@ PowerLaw: equality and ordering by range and index
VC_HARNESS(power_law) {
  double g = vc_real("g"), a = vc_pos("a"), b = vc_pos("b"), h = tie("th", vc_real("h"), g), c = tie("tc", vc_pos("c"), a), d = tie("td", vc_pos("d"), b);
  PowerLaw p(g, a, b), q(h, c, d); compare(p, q, g == h && a == c && b == d); copies(p); vc_cover("power law");
}
//@ Monoenergetic: equality and ordering by energy
VC_HARNESS(mono) { double a = vc_pos("a"), b = tie("tb", vc_pos("b"), a); Monoenergetic p(a), q(b); compare(p, q, a == b); copies(p); vc_cover("mono"); }
//@ ModifiedMoyalPlusExponential: equality and ordering by all seven parameters
VC_HARNESS(moyal) {
  double x[7], y[7]; static const char* n[7] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6"}; static const char* m[7] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6"}; static const char* t[7] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6"};
  for(int k = 0; k < 7; ++k) { x[k] = vc_pos(n[k]); y[k] = tie(t[k], vc_pos(m[k]), x[k]); }
#ifdef VC_NATIVE
  for(int k = 0; k < 7; ++k) { x[k] = 1 + std::fmod(x[k], 2) + (k == 1 ? 3 : 0); y[k] = 1 + std::fmod(y[k], 2) + (k == 1 ? 3 : 0); }
#endif
  ModifiedMoyalPlusExponentialEnergyDistribution p(x[0], x[1], x[2], x[3], x[4], x[5], x[6], false), q(y[0], y[1], y[2], y[3], y[4], y[5], y[6], false);
  bool same = true; for(int k = 0; k < 7; ++k) if(!(x[k] == y[k])) same = false;
  compare(p, q, same); copies(p); vc_cover("moyal");
}
//@ parameterless distributions all equal each other
VC_HARNESS(parameterless) {
  PiDARNuEDistribution a, b; compare(a, b, true); copies(a); IsotropicDirection c, d; compare(c, d, true); copies(c); PrimaryNeutrinoHelicityDistribution e, f; compare(e, f, true); copies(e);
  vc_cover("parameterless");
}
//@ PrimaryMass: equality and ordering by mass; the mass is set, and events of another mass have probability zero
VC_HARNESS(mass) {
  double a = vc_pos("a"), b = tie("tb", vc_pos("b"), a); PrimaryMass p(a), q(b); compare(p, q, a == b); copies(p);
  vc_assert(p.GetPrimaryMass() == a, "the mass is kept");
  PrimaryDistributionRecord rec(ParticleType::NuMu); p.Sample(nullptr, nullptr, nullptr, rec); vc_assert(rec.GetMass() == a, "the mass is set");
  InteractionRecord r; r.primary_mass = b; double w = p.GenerationProbability(nullptr, nullptr, r), d = std::fabs(a - b);
  if(d == 0) vc_assert(w == 1, "an event of this mass has probability one");
  if(d > 1e-8 * (a + b)) vc_assert(w == 0, "an event of another mass has probability zero");
  vc_cover("mass");
}
//@ a massless PrimaryMass generates massless events
VC_HARNESS(massless) {
  PrimaryMass p(0); double b = vc_pos("b"); InteractionRecord r; r.primary_mass = 0;
  vc_assert(p.GenerationProbability(nullptr, nullptr, r) == 1, "a massless event has probability one"); r.primary_mass = b;
  vc_assert(p.GenerationProbability(nullptr, nullptr, r) == 0, "a massive event has probability zero");
  PrimaryDistributionRecord rec(ParticleType::NuE); p.Sample(nullptr, nullptr, nullptr, rec); vc_assert(rec.GetMass() == 0, "the mass is set"); vc_cover("massless");
}
//@ neutrino helicity: particles are left handed, antiparticles right handed, and only those have probability one
VC_HARNESS(helicity) {
  static const ParticleType types[8] = {ParticleType::NuE, ParticleType::NuEBar, ParticleType::NuMu, ParticleType::NuMuBar, ParticleType::NuTau, ParticleType::NuTauBar, ParticleType::N4, ParticleType::N4Bar};
  int k = vc_choice("type", 8); double want = k % 2 ? 0.5 : -0.5, h = vc_real("h");
  PrimaryNeutrinoHelicityDistribution p; PrimaryDistributionRecord rec(types[k]); p.Sample(nullptr, nullptr, nullptr, rec); vc_assert(rec.GetHelicity() == want, "the helicity of the particle type");
  InteractionRecord r; r.signature.primary_type = types[k]; r.primary_momentum = {1, 0, 0, 1}; r.primary_helicity = h; double w = p.GenerationProbability(nullptr, nullptr, r);
  if(h == want) vc_assert(w == 1, "the helicity it samples has probability one");
  if(h > want + 1e-8 || h < want - 1e-8) vc_assert(w == 0, "any other helicity has probability zero");
  r.primary_helicity = want; vc_assert(p.GenerationProbability(nullptr, nullptr, r) == 1, "the helicity it samples has probability one");
  vc_cover("helicity");
}
//@ NormalizationConstant: equality and ordering by the constant; never depends on the event
VC_HARNESS(normalization) {
  double a = vc_pos("a"), b = tie("tb", vc_pos("b"), a); NormalizationConstant p(a), q(b); compare(p, q, a == b);
  vc_assert(p.GetNormalization() == a && p.IsNormalizationSet(), "the constant is kept"); InteractionRecord r; r.primary_mass = b; r.primary_momentum = {b, 0, 0, b};
  vc_assert(p.GenerationProbability(nullptr, nullptr, r) == 1, "no event is preferred");
  p.SetNormalization(b); vc_assert(p.GetNormalization() == b, "the constant is replaced"); compare(p, q, true);
  PowerLaw w(2, 1, 10); vc_assert(!w.IsNormalizationSet() && w.GetNormalization() == 1, "no normalisation unless it is set"); w.SetNormalization(b); vc_assert(w.IsNormalizationSet() && w.GetNormalization() == b, "the normalisation is kept");
  compare(p, w, false);
  vc_cover("normalization");
}
static Vector3D any_dir(const char* t, const char* p) { A3 d = any_unit(t, p); return Vector3D(d[0], d[1], d[2]); }
//@ FixedDirection: equal along the same direction whatever the length of the given vector, different otherwise
VC_HARNESS(fixed_direction) {
  A3 u = any_unit("t", "p"), v = any_unit("s", "q"); double k = vc_pos("k");
  FixedDirection a(Vector3D(u[0], u[1], u[2])), b(Vector3D(v[0], v[1], v[2])), c(Vector3D(k * u[0], k * u[1], k * u[2]));
  double dt = dot3(u, v);
  if(dt < 1 - 1e-8) compare(a, b, false);
  bool e = a == b, l = a < b, g = b < a; vc_assert((int)e + (int)l + (int)g == 1, "exactly one of less, equal, greater");
#ifdef VC_NATIVE
  vc_assume(k > 1e-6 && k < 1e6);
#endif
  vc_assert(a == c && c == a && !(a < c) && !(c < a), "the length of the vector does not matter"); copies(a);
  vc_cover("fixed direction");
}
//@ Cone: equal along the same axis with the same opening angle
VC_HARNESS(cone_angle) {
  A3 u = any_unit("t", "p"); double o = vc_range("o", 0.01, M_PI), w = tie("tw", vc_range("w", 0.01, M_PI), o), k = vc_range("k", 0.1, 10);
  Cone a(Vector3D(u[0], u[1], u[2]), o), c(Vector3D(k * u[0], k * u[1], k * u[2]), w);
  compare(a, c, o == w); copies(a);
  vc_cover("cone");
}
//@ Cone: different along different axes
VC_HARNESS(cone_axis) {
  A3 u = any_unit("t", "p"), v = any_unit("s", "q"); double o = vc_range("o", 0.01, M_PI);
  Cone a(Vector3D(u[0], u[1], u[2]), o), b(Vector3D(v[0], v[1], v[2]), o);
  double dt = dot3(u, v);
  if(dt < 1 - 1e-8) compare(a, b, false);
  bool e = a == b, l = a < b, g = b < a; vc_assert((int)e + (int)l + (int)g == 1, "exactly one of less, equal, greater");
  vc_cover("cone");
}
//@ distributions of different kinds are never equal, and ordered one way
VC_HARNESS(kinds) {
  double a = vc_pos("a"), b = vc_pos("b");
  PowerLaw p(a, b, b + 1); Monoenergetic m(a); PiDARNuEDistribution d; IsotropicDirection i; FixedDirection f(Vector3D(0, 0, 1)); Cone c(Vector3D(0, 0, 1), 0.5); PrimaryMass k(a); PrimaryNeutrinoHelicityDistribution h; NormalizationConstant n(a);
  WeightableDistribution const * all[9] = {&p, &m, &d, &i, &f, &c, &k, &h, &n};
  int x = vc_choice("x", 9), y = vc_choice("y", 9);
  if(x != y) compare(*all[x], *all[y], false);
  int z = vc_choice("z", 9); if(*all[x] < *all[y] && *all[y] < *all[z]) vc_assert(*all[x] < *all[z], "the order is transitive");
  vc_cover("kinds");
}
//@ TabulatedFlux: equality and ordering by range and table
VC_HARNESS(flux) {
  std::vector<double> e = {1, 2, 3}, x = {1, 2, 4}, y = x; int k = vc_choice("where", 3); y[k] = tie("t", vc_pos("y"), x[k]);
#ifdef VC_NATIVE
  y[k] = std::fmod(y[k], 10) + 0.1; if(vc_choice("u", 2)) y[k] = x[k];
#endif
  TabulatedFluxDistribution a(e, x, false, false), b(e, y, false, false);
  compare(a, b, x[k] == y[k]); copies(a);
  vc_cover("flux");
}
//@ TabulatedFlux: equality and ordering by range
VC_HARNESS(flux_range) {
  std::vector<double> e = {1, 2, 3}, x = {1, 2, 4};
  double lo = vc_range("lo", 1, 1.5), hi = vc_range("hi", 2.5, 3), lo2 = tie("tl", vc_range("lo2", 1, 1.5), lo), hi2 = tie("th", vc_range("hi2", 2.5, 3), hi);
  vc_assume(lo < 1.5 && hi > 2.5 && lo > 1 && hi < 3 && lo2 < 1.5 && hi2 > 2.5 && lo2 > 1 && hi2 < 3);
  TabulatedFluxDistribution a(lo, hi, e, x, false, false), b(lo2, hi2, e, x, false, false);
  compare(a, b, lo == lo2 && hi == hi2); copies(a);
  vc_cover("flux");
}
//@ Tabulated2DFlux: equality and ordering by range and table
VC_HARNESS(flux2d) {
  std::vector<double> e = {1, 1, 2, 2, 3, 3}, c = {-1, 1, -1, 1, -1, 1}, x = {1, 2, 3, 4, 5, 6}, y = x; int k = vc_choice("where", 6); y[k] = tie("t", vc_pos("y"), x[k]);
#ifdef VC_NATIVE
  y[k] = std::fmod(y[k], 10) + 0.1; if(vc_choice("u", 2)) y[k] = x[k];
#endif
  double lo[2], hi[2], zl[2], zh[2];
  lo[0] = vc_range("lo", 1, 1.5); hi[0] = vc_range("hi", 2, 3); zl[0] = vc_range("zl", -1, -0.5); zh[0] = vc_range("zh", 0.5, 1);
  lo[1] = tie("t0", vc_range("lo2", 1, 1.5), lo[0]); hi[1] = tie("t1", vc_range("hi2", 2, 3), hi[0]); zl[1] = tie("t2", vc_range("zl2", -1, -0.5), zl[0]); zh[1] = tie("t3", vc_range("zh2", 0.5, 1), zh[0]);
  Tabulated2DFluxDistribution a(lo[0], hi[0], zl[0], zh[0], e, c, x, false), b(lo[1], hi[1], zl[1], zh[1], e, c, y, false);
  compare(a, b, y[k] == x[k] && lo[0] == lo[1] && hi[0] == hi[1] && zl[0] == zl[1] && zh[0] == zh[1]); copies(a);
  vc_cover("flux2d");
}
