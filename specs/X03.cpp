// Tabulated fluxes in energy and in energy and zenith angle.
// SOURCES: projects/distributions/private/Distributions.cxx projects/distributions/private/primary/energy/PrimaryEnergyDistribution.cxx projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx projects/distributions/private/primary/energy_direction/PrimaryEnergyDirectionDistribution.cxx projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx projects/utilities/private/Interpolator.cxx projects/utilities/private/Random.cxx projects/math/private/Vector3D.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// REPLACE: ~rombergIntegrate<std::function => vcs_romberg
// REPLACE: ~simpsonIntegrate2D<std::function => vcs_simpson
// REPLACE: siren::utilities::Interpolator2D<double>::operator()(double const&, double const&) const => vcs_flux2
// REPLACE: siren::utilities::Interpolator1D<double>::operator()(double const&) const => vcs_interp
// REPLACE: siren::utilities::Interpolator1D<double>::AddTable(siren::utilities::TableData1D<double>&) => vcs_addtable
// REPLACE: siren::utilities::Interpolator2D<double>::SetTable(siren::utilities::TableData2D<double>&) => vcs_addtable2
// REPLACE: siren::utilities::Interpolator2D<double>::IsLogX() const => vcs_logx
// REPLACE: siren::utilities::Interpolator2D<double>::IsLogY() const => vcs_logy
// IRFLAGS: -fno-inline
// LOOPINV flux2d_sample: Tabulated2DFluxDistribution::SampleEnergyAndDirection => mh_in mh_weight
// ASSUMES: SIREN_random::Uniform(a,b) returns a + u (b-a) with u in [0,1] (its contract, property U03)
// ASSUMES: rombergIntegrate and simpsonIntegrate2D are used through their contract: a positive number for a positive integrand (accuracy: property U02)
// ASSUMES: Interpolator2D is used through its contract: a non-negative function of the two coordinates (property U01), logarithmic in energy or not, linear in the cosine
// ASSUMES: Interpolator1D is used through its contract: increasing nodes, reproduced values, linear between the nodes of a CDF (property U01)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include <functional>
using namespace siren::distributions; using siren::utilities::SIREN_random; using siren::math::Vector3D;
using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::InteractionRecord; using siren::dataclasses::ParticleType;
static double last_u = -1, uu[4]; static long ndraws = 0;
extern "C" double vcs_uniform(SIREN_random*, double a, double b) {
  double lo = a < b ? a : b, hi = a < b ? b : a;
  double u = vc_real("u"); vc_assume(u >= 0 && u <= 1);
  if(a == 0 && b == 1) last_u = u;
  uu[ndraws % 4] = u; ++ndraws;
  return lo + u * (hi - lo);
}
static double emin, emax, zmin, zmax, J; static bool logx;
extern "C" void vcs_addtable2(siren::utilities::Interpolator2D<double> *, siren::utilities::TableData2D<double> & t) {
  vc_assert(t.x.size() == 6 && t.y.size() == 6 && t.f.size() == 6, "the whole table is used");
  for(int k = 0; k < 6; ++k) vc_assert(t.f[k] == k + 1 && t.y[k] == (k % 2 ? 1 : -1), "the table is used in its order");
}
extern "C" bool vcs_logx(siren::utilities::Interpolator2D<double> const *) { return logx; }
extern "C" bool vcs_logy(siren::utilities::Interpolator2D<double> const *) { return false; }
static double (*spec_flux)(double) = nullptr;
extern "C" double vcs_romberg(std::function<double(double)> const & f, double a, double b, double) {
  vc_assert(a == emin && b == emax, "integrated over the energy range");
  double x = vc_real("x"); vc_assume(a <= x && x <= b);
  vc_eq(f(x), spec_flux(x), "the integrand is the flux");
  return J;
}
// flux table of two arguments: any non-negative function
static double px, py;          // where it was last evaluated
static double flux2(double e, double c) {
#ifdef VC_NATIVE
  return 0;
#else
  double v = vc_fun2("flux", e, c); vc_assume(v >= 0); return v;
#endif
}
extern "C" double vcs_flux2(siren::utilities::Interpolator2D<double> const *, double const & e, double const & c) { px = e; py = c; return flux2(e, c); }
extern "C" double vcs_simpson(std::function<double(double, double)> const & f, double a1, double b1, double a2, double b2, double, unsigned, unsigned, unsigned) {
  double x = vc_real("x"), y = vc_real("y");
  vc_eq(a2, zmin, "integrated from the lowest cosine"); vc_eq(b2, zmax, "integrated to the highest cosine");
  double e = logx ? std::pow(10, x) : x;
  if(logx) { vc_eq(std::pow(10, a1), emin, "integrated from the lowest energy"); vc_eq(std::pow(10, b1), emax, "integrated to the highest energy"); }
  else { vc_eq(a1, emin, "integrated from the lowest energy"); vc_eq(b1, emax, "integrated to the highest energy"); }
  vc_eq(f(x, y), flux2(e, y) * (logx ? std::log(10.0) * e : 1.0), "the integrand is the flux times the change of variable");
  return J;
}
#ifdef VC_NATIVE
static std::shared_ptr<SIREN_random> any_rand() { return std::make_shared<SIREN_random>(vc_int_in("seed", 1, 1000000)); }
#else
static std::shared_ptr<SIREN_random> any_rand() { return nullptr; }
#endif
// ------------------------------------------------------------------------------------------------ one dimension
// Interpolator1D through its contract (property U01): AddTable takes strictly increasing nodes; evaluation reproduces the nodes, is linear between
// them when the first node is zero (cumulative distributions), and otherwise some positive function of its argument
typedef siren::utilities::Interpolator1D<double> Interp; typedef siren::utilities::TableData1D<double> Tab;
static double X[3], F[3];
extern "C" void vcs_addtable(Interp * p, Tab & t) {
  vc_assert(t.x.size() == t.f.size() && t.x.size() >= 2, "a table has as many values as nodes");
  for(size_t i = 1; i < t.x.size(); ++i) vc_assert(t.x[i - 1] < t.x[i], "the nodes of a table increase");
  p->original_table = t;
}
static double table_flux(double e) {
#ifdef VC_NATIVE
  Tab t; for(int k = 0; k < 3; ++k) { t.x.push_back(X[k]); t.f.push_back(F[k]); }
  return Interp(t)(e);
#else
  for(int k = 0; k < 3; ++k) if(e == X[k]) return F[k];
  double v = vc_fun1("flux1", e); vc_assume(v > 0); return v;
#endif
}
extern "C" double vcs_interp(Interp const * p, double const & x) {
  Tab const & t = p->original_table;
  if(!(t.x[0] == 0)) return table_flux(x);
  size_t n = t.x.size();
  vc_assert(t.x[0] <= x && x <= t.x[n - 1], "the inverse CDF is evaluated inside its range");
  size_t i = 1; while(i + 1 < n && x > t.x[i]) ++i;
  return t.f[i - 1] + (t.f[i] - t.f[i - 1]) * (x - t.x[i - 1]) / (t.x[i] - t.x[i - 1]);
}
static double area(double a, double b) { return (table_flux(a) + table_flux(b)) / 2 * (b - a); }
static void table() {
  X[0] = vc_pos("x0"); X[1] = X[0] + vc_pos("d"); X[2] = X[1] + vc_pos("e");
  static const char* nm[3] = {"f0", "f1", "f2"};
  for(int k = 0; k < 3; ++k) F[k] = vc_pos(nm[k]);
#ifdef VC_NATIVE
  vc_assume(X[0] < 1e3 && X[1] - X[0] > 1e-2 && X[2] - X[1] > 1e-2 && X[2] < 1e5 && X[0] > 1e-2 && X[1] / X[0] > 1.01 && X[2] / X[1] > 1.01);
  for(int k = 0; k < 3; ++k) vc_assume(F[k] > 1e-3 && F[k] < 1e3);
#endif
  spec_flux = table_flux;
}
static void some_bounds() {
  emin = vc_range("emin", X[0], X[1]); emax = vc_range("emax", X[1], X[2]); vc_assume(X[0] < emin && emin < X[1] && X[1] < emax && emax < X[2]);
#ifdef VC_NATIVE
  vc_assume(X[1] - emin > 1e-2 && emax - X[1] > 1e-2);
#endif
}
//@ TabulatedFlux sampling: the CDF is the normalised trapezoidal area, the sampler inverts it
VC_HARNESS(flux_sample) {
  table(); emin = X[0]; emax = X[2]; bool bounds = vc_choice("bounds", 2); if(bounds) some_bounds();
  std::vector<double> e(X, X + 3), f(F, F + 3);
  double A = area(emin, X[1]), B = area(X[1], emax);
  vc_assert(A > 0, "areas are positive"); vc_assert(B > 0, "areas are positive");
#ifdef VC_NATIVE
  vc_assume(std::fabs(A - B) > 1e-3 * (A + B));
#endif
  TabulatedFluxDistribution d = bounds ? TabulatedFluxDistribution(emin, emax, e, f, false, false) : TabulatedFluxDistribution(e, f, false, false);
  std::vector<double> c = d.GetCDF(), n = d.GetCDFEnergyNodes();
  vc_assert(c.size() == 3 && n.size() == 3, "one CDF entry per energy node");
  if(!(c.size() == 3 && n.size() == 3)) return;
  vc_assert(c[0] == 0, "the CDF starts at zero"); vc_eq(c[2], 1, "the CDF ends at one"); vc_eq(c[1] * (A + B), A, "the CDF is the normalised area under the flux");
  vc_eq(n[0], emin, "first CDF node"); vc_eq(n[1], X[1], "inner CDF node"); vc_eq(n[2], emax, "last CDF node");
  auto r = any_rand();
#ifdef VC_NATIVE
  double u = SIREN_random(r->get_seed()).Uniform(0, 1);
#endif
  PrimaryDistributionRecord rec(ParticleType::NuMu);
  d.Sample(r, nullptr, nullptr, rec); double s = rec.GetEnergy();
#ifndef VC_NATIVE
  double u = last_u;
#endif
  if(u * (A + B) <= A) vc_eq((s - emin) * A, u * (A + B) * (X[1] - emin), "a draw below the CDF of the node is spread over the first bin");
  else vc_eq((s - X[1]) * B, (u * (A + B) - A) * (emax - X[1]), "a draw above the CDF of the node is spread over the second bin");
  vc_le(emin, s, "sample not below the range"); vc_le(s, emax, "sample not above the range");
  vc_eq(d.InverseCDF(u), s, "InverseCDF is what is sampled");
  vc_cover("flux sample");
}

// ------------------------------------------------------------------------------------------------ two dimensions
static std::vector<double> T2[3];
static double N2;              // integral of the distribution under test
extern "C" bool mh_in(double e, double c) { return (emin <= e) & (e <= emax) & (zmin <= c) & (c <= zmax); }
#ifdef VC_NATIVE
static double ref2(double e, double c) { siren::utilities::TableData2D<double> t; t.x = T2[0]; t.y = T2[1]; t.f = T2[2]; return siren::utilities::Interpolator2D<double>(t)(e, c); }
#else
static double ref2(double e, double c) { return flux2(e, c); }
#endif
extern "C" bool mh_weight(double w, double e, double c) { double v = vc_fun2("flux", e, c); return (w <= 0) | (mh_in(e, c) & (w * N2 == v * (logx ? e : 1.0))); }
static void table2() {
  logx = vc_choice("logx", 2); J = vc_pos("J"); N2 = J;
  double a = 1, b = logx ? 10 : 2, c = logx ? 100 : 3;
  T2[0] = {a, a, b, b, c, c}; T2[1] = {-1, 1, -1, 1, -1, 1}; T2[2] = {1, 2, 3, 4, 5, 6};
  emin = a; emax = c; zmin = -1; zmax = 1;
}
static void bounds_e() { double t = emin, u = emax; emin = vc_range("emin", t, u); emax = vc_range("emax", t, u); vc_assume(emin < emax); }
static void bounds_z() { zmin = vc_range("zmin", -1, 1); zmax = vc_range("zmax", -1, 1); vc_assume(zmin < zmax); }
static Tabulated2DFluxDistribution make2(int kind, bool phys) {
  if(kind == 0) return Tabulated2DFluxDistribution(T2[0], T2[1], T2[2], phys);
  if(kind == 1) { bounds_e(); return Tabulated2DFluxDistribution(emin, emax, T2[0], T2[1], T2[2], phys); }
  if(kind == 2) { bounds_e(); bounds_z(); return Tabulated2DFluxDistribution(emin, emax, zmin, zmax, T2[0], T2[1], T2[2], phys); }
  Tabulated2DFluxDistribution d(T2[0], T2[1], T2[2], phys);
  if(kind == 3) { bounds_e(); d.SetEnergyBounds(emin, emax); }
  else { bounds_z(); d.SetCosZenithBounds(zmin, zmax); }
  return d;
}
//@ Tabulated2DFlux: the density is the table over its integral on the given energies and zenith angles, zero outside; bounds by constructor or setter
VC_HARNESS(flux2d) {
  table2(); bool phys = vc_choice("phys", 2);
  Tabulated2DFluxDistribution d = make2(vc_choice("kind", 5), phys);
  vc_assert(d.IsNormalizationSet() == phys, "physical normalisation only when asked for");
  double I = d.GetIntegral();
#ifndef VC_NATIVE
  vc_assert(I == J, "the integral is the one computed by the integrator");
#endif
  double E = vc_pos("E"), x = vc_real("px"), y = vc_real("py"), z = vc_real("pz"), q = std::sqrt(x * x + y * y + z * z);
  vc_assume(q > 0); double c = z / q;
#ifdef VC_NATIVE
  E = emin + std::fmod(E, 1.5) * (emax - emin) - 0.25 * (emax - emin);
  vc_assume(q > 1e-3 && q < 1e6 && E > 0);
#endif
  InteractionRecord r; r.primary_momentum = {E, x, y, z};
  double p = d.GenerationProbability(nullptr, nullptr, r);
  if(E < emin || E > emax || c < zmin - 1e-9 || c > zmax + 1e-9) vc_assert(p == 0, "nothing is generated outside the given energies and angles");
  else if(c >= zmin + 1e-9 && c <= zmax - 1e-9) vc_eq(p * I, ref2(E, c), "the density is the flux over its integral");
  if(vc_choice("more", 2)) { vc_eq(d.SamplePDF(E, c) * I, ref2(E, c), "same density"); vc_eq(d.SampleUnnormedPDF(E, c), ref2(E, c), "unnormalised flux"); }
  vc_cover("flux table");
}
static double proposal(double u) { return logx ? std::pow(10, std::log10(emin) + u * (std::log10(emax) - std::log10(emin))) : emin + u * (emax - emin); }
//@ Tabulated2DFlux sampling is a Metropolis-Hastings step towards the density: a uniform (logarithmic) proposal is taken with probability min(1, ratio of densities), otherwise the point is repeated
VC_HARNESS(flux2d_sample) {
  table2(); bounds_e(); bounds_z();
#ifdef VC_NATIVE
  vc_assume(emax / emin > 1.01 && zmax - zmin > 1e-3);
#endif
  Tabulated2DFluxDistribution d(emin, emax, zmin, zmax, T2[0], T2[1], T2[2], false);
  auto r = any_rand();
  PrimaryDistributionRecord a(ParticleType::NuMu), b(ParticleType::NuMu);
  d.Sample(r, nullptr, nullptr, a);
  double e0 = a.GetEnergy(), c0 = a.GetDirection()[2];
  vc_assert(emin <= e0 * (1 + 1e-12) && e0 <= emax * (1 + 1e-12) && zmin <= c0 + 1e-9 && c0 <= zmax + 1e-9, "the sampled point is in the range");
  double w0 = ref2(e0, c0) * (logx ? e0 : 1);
#ifdef VC_NATIVE
  SIREN_random q(*r); long n0 = 0; for(int k = 0; k < 4; ++k) uu[k] = q.Uniform(0, 1);
#else
  ndraws = 0;
#endif
  d.Sample(r, nullptr, nullptr, b);
  double e1 = b.GetEnergy(), c1 = b.GetDirection()[2];
  double pe = proposal(uu[0]), pc = zmin + uu[1] * (zmax - zmin), w1 = ref2(pe, pc) * (logx ? pe : 1);
  bool take = w0 <= 0 || w1 >= w0 || uu[2] * w0 < w1;
  if(take) { vc_eq(e1, pe, "the proposed energy is taken"); vc_eq(c1, pc, "the proposed zenith angle is taken"); }
  else { vc_eq(e1, e0, "the current energy is repeated"); vc_eq(c1, c0, "the current zenith angle is repeated"); }
  double ph = -M_PI + 2 * M_PI * uu[w1 >= w0 || w0 <= 0 ? 2 : 3], s2 = 1 - c1 * c1;
  vc_eq(b.GetDirection()[0] * b.GetDirection()[0], s2 * std::cos(ph) * std::cos(ph), "the azimuth is uniform"); vc_eq(b.GetDirection()[1] * b.GetDirection()[1], s2 * std::sin(ph) * std::sin(ph), "the azimuth is uniform");
  vc_cover("flux sample");
}
