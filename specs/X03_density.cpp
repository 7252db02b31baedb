// Tabulated fluxes in energy: density and normalisation.
// SOURCES: projects/distributions/private/Distributions.cxx projects/distributions/private/primary/energy/PrimaryEnergyDistribution.cxx projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx projects/distributions/private/primary/energy_direction/PrimaryEnergyDirectionDistribution.cxx projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx projects/utilities/private/Interpolator.cxx projects/utilities/private/Random.cxx projects/math/private/Vector3D.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// REPLACE: ~rombergIntegrate<std::function => vcs_romberg
// REPLACE: ~simpsonIntegrate2D<std::function => vcs_simpson
// REPLACE: siren::utilities::Interpolator2D<double>::operator()(double const&, double const&) const => vcs_flux2
// REPLACE: siren::utilities::Interpolator1D<double>::operator()(double const&) const => vcs_interp
// REPLACE: siren::utilities::Interpolator1D<double>::AddTable(siren::utilities::TableData1D<double>&) => vcs_addtable
// REPLACE: siren::utilities::Interpolator2D<double>::SetTable(siren::utilities::TableData2D<double>&) => vcs_addtable2
// REPLACE: siren::utilities::Interpolator2D<double>::IsLogX() const => vcs_logx
// REPLACE: siren::utilities::Interpolator2D<double>::IsLogY() const => vcs_logy
// REPLACE: siren::distributions::TabulatedFluxDistribution::ComputeCDF() => vcs_cdf
// IRFLAGS: -fno-inline
// ASSUMES: ComputeCDF only prepares sampling (its contract: flux_sample in X03.cpp)
// ASSUMES: SIREN_random::Uniform(a,b) returns a + u (b-a) with u in [0,1] (its contract, property U03)
// ASSUMES: rombergIntegrate and simpsonIntegrate2D are used through their contract: a positive number for a positive integrand (accuracy: property U02)
// ASSUMES: Interpolator2D is used through its contract: a non-negative function of the two coordinates (property U01), logarithmic in energy or not, linear in the cosine
// ASSUMES: Interpolator1D is used through its contract: increasing nodes, reproduced values, linear between the nodes of a CDF (property U01)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include <functional>
using namespace siren::distributions; using siren::utilities::SIREN_random; using siren::math::Vector3D;
using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::InteractionRecord; using siren::dataclasses::ParticleType;
static double last_u = -1, uu[4]; static long ndraws = 0;
extern "C" double vcs_uniform(SIREN_random*, double a, double b) {
  double lo = a < b ? a : b, hi = a < b ? b : a;
  double u = vc_real("u"); vc_assume(u >= 0 && u <= 1);
  if(a == 0 && b == 1) last_u = u;
  uu[ndraws % 4] = u; ++ndraws;
  return lo + u * (hi - lo);
}
static double emin, emax, zmin, zmax, J; static bool logx;
extern "C" void vcs_addtable2(siren::utilities::Interpolator2D<double> *, siren::utilities::TableData2D<double> & t) {
  vc_assert(t.x.size() == 6 && t.y.size() == 6 && t.f.size() == 6, "the whole table is used");
  for(int k = 0; k < 6; ++k) vc_assert(t.f[k] == k + 1 && t.y[k] == (k % 2 ? 1 : -1), "the table is used in its order");
}
extern "C" bool vcs_logx(siren::utilities::Interpolator2D<double> const *) { return logx; }
extern "C" bool vcs_logy(siren::utilities::Interpolator2D<double> const *) { return false; }
static double (*spec_flux)(double) = nullptr;
extern "C" double vcs_romberg(std::function<double(double)> const & f, double a, double b, double) {
  vc_assert(a == emin && b == emax, "integrated over the energy range");
  double x = vc_real("x"); vc_assume(a <= x && x <= b);
  vc_eq(f(x), spec_flux(x), "the integrand is the flux");
  return J;
}
// flux table of two arguments: any non-negative function
static double px, py;          // where it was last evaluated
static double flux2(double e, double c) {
#ifdef VC_NATIVE
  return 0;
#else
  double v = vc_fun2("flux", e, c); vc_assume(v >= 0); return v;
#endif
}
extern "C" double vcs_flux2(siren::utilities::Interpolator2D<double> const *, double const & e, double const & c) { px = e; py = c; return flux2(e, c); }
extern "C" double vcs_simpson(std::function<double(double, double)> const & f, double a1, double b1, double a2, double b2, double, unsigned, unsigned, unsigned) {
  double x = vc_real("x"), y = vc_real("y");
  vc_eq(a2, zmin, "integrated from the lowest cosine"); vc_eq(b2, zmax, "integrated to the highest cosine");
  double e = logx ? std::pow(10, x) : x;
  if(logx) { vc_eq(std::pow(10, a1), emin, "integrated from the lowest energy"); vc_eq(std::pow(10, b1), emax, "integrated to the highest energy"); }
  else { vc_eq(a1, emin, "integrated from the lowest energy"); vc_eq(b1, emax, "integrated to the highest energy"); }
  vc_eq(f(x, y), flux2(e, y) * (logx ? std::log(10.0) * e : 1.0), "the integrand is the flux times the change of variable");
  return J;
}
#ifdef VC_NATIVE
static std::shared_ptr<SIREN_random> any_rand() { return std::make_shared<SIREN_random>(vc_int_in("seed", 1, 1000000)); }
#else
static std::shared_ptr<SIREN_random> any_rand() { return nullptr; }
#endif
extern "C" void vcs_cdf(TabulatedFluxDistribution *) {}
// ------------------------------------------------------------------------------------------------ one dimension
// Interpolator1D through its contract (property U01): AddTable takes strictly increasing nodes; evaluation reproduces the nodes, is linear between
// them when the first node is zero (cumulative distributions), and otherwise some positive function of its argument
typedef siren::utilities::Interpolator1D<double> Interp; typedef siren::utilities::TableData1D<double> Tab;
static double X[3], F[3];
extern "C" void vcs_addtable(Interp * p, Tab & t) {
  vc_assert(t.x.size() == t.f.size() && t.x.size() >= 2, "a table has as many values as nodes");
  for(size_t i = 1; i < t.x.size(); ++i) vc_assert(t.x[i - 1] < t.x[i], "the nodes of a table increase");
  p->original_table = t;
}
static double table_flux(double e) {
#ifdef VC_NATIVE
  Tab t; for(int k = 0; k < 3; ++k) { t.x.push_back(X[k]); t.f.push_back(F[k]); }
  return Interp(t)(e);
#else
  for(int k = 0; k < 3; ++k) if(e == X[k]) return F[k];
  double v = vc_fun1("flux1", e); vc_assume(v > 0); return v;
#endif
}
extern "C" double vcs_interp(Interp const * p, double const & x) {
  Tab const & t = p->original_table;
  if(!(t.x[0] == 0)) return table_flux(x);
  size_t n = t.x.size();
  vc_assert(t.x[0] <= x && x <= t.x[n - 1], "the inverse CDF is evaluated inside its range");
  size_t i = 1; while(i + 1 < n && x > t.x[i]) ++i;
  return t.f[i - 1] + (t.f[i] - t.f[i - 1]) * (x - t.x[i - 1]) / (t.x[i] - t.x[i - 1]);
}
static double area(double a, double b) { return (table_flux(a) + table_flux(b)) / 2 * (b - a); }
static void table() {
  X[0] = vc_pos("x0"); X[1] = X[0] + vc_pos("d"); X[2] = X[1] + vc_pos("e");
  static const char* nm[3] = {"f0", "f1", "f2"};
  for(int k = 0; k < 3; ++k) F[k] = vc_pos(nm[k]);
#ifdef VC_NATIVE
  vc_assume(X[0] < 1e3 && X[1] - X[0] > 1e-2 && X[2] - X[1] > 1e-2 && X[2] < 1e5 && X[0] > 1e-2 && X[1] / X[0] > 1.01 && X[2] / X[1] > 1.01);
  for(int k = 0; k < 3; ++k) vc_assume(F[k] > 1e-3 && F[k] < 1e3);
#endif
  spec_flux = table_flux;
}
static void some_bounds() {
  emin = vc_range("emin", X[0], X[1]); emax = vc_range("emax", X[1], X[2]); vc_assume(X[0] < emin && emin < X[1] && X[1] < emax && emax < X[2]);
#ifdef VC_NATIVE
  vc_assume(X[1] - emin > 1e-2 && emax - X[1] > 1e-2);
#endif
}
static double genprob(WeightableDistribution const & d, double E) { InteractionRecord r; r.primary_momentum = {E, 0, 0, E}; return d.GenerationProbability(nullptr, nullptr, r); }
static void density(bool bounds, bool later, bool phys, bool romberg) {
  table(); emin = X[0]; emax = X[2]; J = vc_pos("J");
  if(bounds) some_bounds();
  std::vector<double> e(X, X + 3), f(F, F + 3);
  double fa = bounds ? F[0] + (F[1] - F[0]) * (emin - X[0]) / (X[1] - X[0]) : F[0], fb = bounds ? F[1] + (F[2] - F[1]) * (emax - X[1]) / (X[2] - X[1]) : F[2];
  if(bounds) {   // lemma: everything under the flux is positive
    vc_assert((X[1] - emin) * F[0] > 0 && (emin - X[0]) * F[1] > 0 && (X[2] - emax) * F[1] > 0 && (emax - X[1]) * F[2] > 0, "lemma: weights are positive");
    vc_eq(fa * (X[1] - X[0]), (X[1] - emin) * F[0] + (emin - X[0]) * F[1], "lemma: interpolated flux"); vc_assert(fa > 0, "lemma: flux positive");
    vc_eq(fb * (X[2] - X[1]), (X[2] - emax) * F[1] + (emax - X[1]) * F[2], "lemma: interpolated flux"); vc_assert(fb > 0, "lemma: flux positive");
    vc_assert((fa + F[1]) / 2 * (X[1] - emin) > 0 && (F[1] + fb) / 2 * (emax - X[1]) > 0, "lemma: areas positive");
  }
  double trap = (fa + F[1]) / 2 * (X[1] - emin) + (F[1] + fb) / 2 * (emax - X[1]);
  double lo = emin, hi = emax;
  if(later) { emin = X[0]; emax = X[2]; }
  TabulatedFluxDistribution d = bounds && !later ? TabulatedFluxDistribution(emin, emax, e, f, phys, romberg) : TabulatedFluxDistribution(e, f, phys, romberg);
  vc_assert(d.IsNormalizationSet() == phys, "physical normalisation only when asked for");
  if(phys) vc_eq(d.GetNormalization(), d.GetIntegral(), "the normalisation is the integral");
  if(later) { emin = lo; emax = hi; d.SetEnergyBounds(lo, hi); }
  double I = d.GetIntegral();
#ifndef VC_NATIVE
  if(romberg) vc_assert(I == J, "the integral is the one computed by the integrator");
#endif
  if(!romberg) vc_eq(I, trap, "the integral is the trapezoidal one over the energy range");
  double E = vc_pos("E");
#ifdef VC_NATIVE
  vc_assume(E < 1e5);
#endif
  double p = genprob(d, E);
  if(E < emin || E > emax) vc_assert(p == 0, "nothing is generated outside the energy range");
  else { vc_eq(p * I, table_flux(E), "the density is the flux over its integral"); vc_eq(d.SamplePDF(E), p, "same density"); vc_eq(d.SampleUnnormedPDF(E), table_flux(E), "unnormalised flux"); }
  vc_cover("flux table");
}
//@ TabulatedFlux over the whole table: density and trapezoidal integral, zero outside; physical normalisation
VC_HARNESS(flux_full) { density(false, false, vc_choice("phys", 2), false); }
//@ TabulatedFlux with energy bounds given at construction
VC_HARNESS(flux_bounds) { density(true, false, vc_choice("phys", 2), false); }
//@ TabulatedFlux with energy bounds set later
VC_HARNESS(flux_rebound) { density(true, true, false, false); }
//@ TabulatedFlux integrated by Romberg over its energy range
VC_HARNESS(flux_romberg) { int k = vc_choice("kind", 3); density(k > 0, k == 2, vc_choice("phys", 2), true); }
