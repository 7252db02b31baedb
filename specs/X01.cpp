// Primary energy distributions.
// SOURCES: projects/distributions/private/Distributions.cxx projects/distributions/private/primary/energy/PrimaryEnergyDistribution.cxx projects/distributions/private/primary/energy/PowerLaw.cxx projects/distributions/private/primary/energy/Monoenergetic.cxx projects/distributions/private/primary/energy/PiDARNuEDistribution.cxx projects/distributions/private/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.cxx projects/utilities/private/Random.cxx projects/math/private/Vector3D.cxx projects/dataclasses/private/InteractionRecord.cxx projects/dataclasses/private/InteractionSignature.cxx projects/dataclasses/private/Particle.cxx projects/dataclasses/private/ParticleID.cxx projects/dataclasses/private/ParticleType.cxx
// REPLACE: siren::utilities::SIREN_random::Uniform(double, double) => vcs_uniform
// REPLACE: ~rombergIntegrate<std::function => vcs_romberg
// LOOPINV: PiDARNuEDistribution.*(SampleEnergy|inv_cdf) => pidar_lo pidar_hi pidar_in
// LOOPINV: ModifiedMoyalPlusExponentialEnergyDistribution::SampleEnergy => moyal_in moyal_density
// ASSUMES: SIREN_random::Uniform(a,b) returns a + u (b-a) with u in [0,1] (its contract, property U03)
// ASSUMES: rombergIntegrate returns the integral of its argument exactly (its tolerance is not modelled; property U02)
#include "common.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Constants.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include <functional>
using namespace siren::distributions; using siren::utilities::SIREN_random;
using siren::dataclasses::PrimaryDistributionRecord; using siren::dataclasses::InteractionRecord; using siren::dataclasses::ParticleType;
static double last_u = -1; static long ndraws = 0; static bool order_ok = true;
extern "C" double vcs_uniform(SIREN_random*, double a, double b) {
  double lo = a < b ? a : b, hi = a < b ? b : a;
  double u = vc_real("u"); vc_assume(u >= 0 && u <= 1);
  last_u = u; ++ndraws;
  return lo + u * (hi - lo);
}
#ifdef VC_NATIVE
static long the_seed;
static std::shared_ptr<SIREN_random> any_rand() { the_seed = vc_int_in("seed", 1, 1000000); return std::make_shared<SIREN_random>(the_seed); }
static double first_draw() { return SIREN_random(the_seed).Uniform(); }
#else
static std::shared_ptr<SIREN_random> any_rand() { return nullptr; }
static double first_draw() { return last_u; }
#endif
static double sample(PrimaryEnergyDistribution const & d) {
  PrimaryDistributionRecord rec(ParticleType::NuMu);
  d.Sample(any_rand(), nullptr, nullptr, rec);
  return rec.GetEnergy();
}
static double genprob(WeightableDistribution const & d, double E) {
  InteractionRecord r; r.primary_momentum = {E, 0, 0, E};
  return d.GenerationProbability(nullptr, nullptr, r);
}
// integral of E^-g from a to b
static double plint(double g, double a, double b) { return g == 1.0 ? std::log(b) - std::log(a) : (std::pow(b, 1 - g) - std::pow(a, 1 - g)) / (1 - g); }
//@ PowerLaw: density E^-g normalised on [Emin,Emax], zero outside; samples invert its cumulative distribution
VC_HARNESS(power_law) {
  double g = vc_choice("log", 2) ? 1.0 : vc_range("g", -5, 5), lo = vc_pos("lo"), hi = lo + vc_pos("w"), E = vc_pos("E");
#ifdef VC_NATIVE
  vc_assume(lo > 1e-2 && hi / lo > 1.01 && hi < 1e4 && (g == 1 || std::fabs(g - 1) > 1e-2));
#endif
  PowerLaw d(g, lo, hi);
  double I = plint(g, lo, hi);
  double p = genprob(d, E);
  if(E < lo || E > hi) vc_assert(p == 0, "nothing is generated outside the energy range");
  else vc_eq(p * I, std::pow(E, -g), "normalised density inside the range");
  vc_eq(d.pdf(E) * I, std::pow(E, -g), "pdf");
  double s = sample(d), u = first_draw();
  vc_assert(ndraws <= 1, "one draw");
  double L = std::log(s), l = std::log(lo), h = std::log(hi);
  if(g == 1.0) { vc_eq(L - l, u * (h - l), "the cumulative distribution at the sample is the draw (log)"); vc_le(l, h, "logs ordered"); }
  else {
    vc_eq(std::pow(s, 1 - g) - std::pow(lo, 1 - g), u * (std::pow(hi, 1 - g) - std::pow(lo, 1 - g)), "the cumulative distribution at the sample is the draw");
    double P = std::log(std::pow(s, 1 - g)), pl = (1 - g) * l, ph = (1 - g) * h;
    vc_eq(P, (1 - g) * L, "log of the power");
    if(g < 1) { vc_le(pl, ph, "increasing powers"); vc_le(pl, P, "power not below the range"); vc_le(P, ph, "power not above the range"); }
    else { vc_le(ph, pl, "decreasing powers"); vc_le(ph, P, "power not below the range"); vc_le(P, pl, "power not above the range"); }
  }
  vc_le(l, L, "log of the sample not below the range"); vc_le(L, h, "log of the sample not above the range");
  vc_le(lo, s, "sample not below the range"); vc_le(s, hi, "sample not above the range");
  vc_cover("power law");
}
//@ PowerLaw with a single energy generates that energy with probability one
VC_HARNESS(power_law_single) {
  double g = vc_real("g"), lo = vc_pos("lo");
  PowerLaw d(g, lo, lo); vc_assert(sample(d) == lo, "the only energy"); vc_assert(genprob(d, lo) == 1, "with probability one"); vc_assert(ndraws == 0, "no draw needed");
}
//@ PowerLaw normalisation at an energy: the normalised flux at that energy is the given one
VC_HARNESS(power_law_norm) {
  double g = vc_range("g", -5, 5), lo = vc_pos("lo"), hi = lo + vc_pos("w"), E = vc_pos("E"), n = vc_pos("n");
#ifdef VC_NATIVE
  vc_assume(lo > 1e-2 && hi / lo > 1.01 && hi < 1e4 && (g == 1 || std::fabs(g - 1) > 1e-2));
#endif
  vc_assume(g != 1);
  PowerLaw d(g, lo, hi); vc_assert(!d.IsNormalizationSet() && d.GetNormalization() == 1, "no normalisation at first");
  d.SetNormalizationAtEnergy(n, E);
  vc_assert(d.IsNormalizationSet(), "normalisation is set");
  vc_eq(d.GetNormalization() * std::pow(E, -g), n * plint(g, lo, hi), "normalisation times density at the energy is the given flux");
  vc_cover("norm");
}
//@ Monoenergetic: always its energy, probability one within 1e-6 relative, zero elsewhere
VC_HARNESS(monoenergetic) {
  double e = vc_pos("e"), E = vc_pos("E");
  Monoenergetic d(e);
  vc_assert(sample(d) == e, "sample"); vc_assert(genprob(d, e) == 1, "probability at the energy");
  double p = genprob(d, E);
  if(E - e > 1.01e-6 * e || e - E > 1.01e-6 * e) vc_assert(p == 0, "zero elsewhere");
  if(E - e < 0.99e-6 * e && e - E < 0.99e-6 * e) vc_assert(p == 1, "one within the tolerance");
  vc_assert(d.pdf(E) == p, "pdf agrees with the generation probability");
  vc_cover("mono");
}
static const double M = siren::utilities::Constants::muonMass;
static double pidar_cdf(double E) { return 32 * E * E * E / (M * M * M) - 48 * E * E * E * E / (M * M * M * M); }
// bracket invariant of the bisection: the lower end is below the solution, the upper end above
extern "C" bool pidar_lo(double x) { return pidar_cdf(x) <= last_u + 1e-9; }
extern "C" bool pidar_hi(double x) { return last_u <= pidar_cdf(x) + 1e-9; }
extern "C" bool pidar_in(double x) { return (0 <= x) & (2 * x <= M); }
//@ PiDAR: Michel electron-neutrino spectrum 192 E^2/m^3 (1/2 - E/m) on [0,m/2], zero outside, and its sampling bisection: sample in the range, its CDF within the tolerance of the draw
VC_HARNESS(pidar) {
  PiDARNuEDistribution d; double E = vc_real("E");
  double p = genprob(d, E);
  if(E < 0 || 2 * E > M) vc_assert(p == 0, "zero outside the spectrum"); else { double q = p * M * M * M * M, x = 192 * E * E * (M / 2 - E); vc_le(q, x * (1 + 1e-9), "Michel spectrum (above)"); vc_le(x * (1 - 1e-9), q, "Michel spectrum (below)"); vc_le(0, p, "not negative"); }
  vc_cover("pidar density");
}
//@ PiDAR sampling
VC_HARNESS(pidar_sample) {
  PiDARNuEDistribution d;
  double s = sample(d), u = first_draw();
  vc_le(0, s, "sample not negative"); vc_le(s, M / 2, "sample not above the end point");
  // tolerance 1e-6 in energy, density at most 32/(9 m) * ... bounded by 192/54/m
  double slope = 192.0 / 54.0 / M * 1.0001e-6 * 2 + 1e-8;
  vc_le(pidar_cdf(s) - u, slope, "CDF at the sample not above the draw by more than the tolerance");
  vc_le(u - pidar_cdf(s), slope, "CDF at the sample not below the draw by more than the tolerance");
  vc_cover("pidar sample");
}

static ModifiedMoyalPlusExponentialEnergyDistribution const * mm = nullptr;
static double elo, ehi, mu, sg, A, l, B;
static double moyal_raw(double E) {
  double x = (E - mu) / sg;
  return A / sg * std::exp(-(x + std::exp(-x)) / 2) / std::sqrt(2.0 * M_PI) + B / l * std::exp(-E / l);
}
static double moyal_int() { return B * (std::exp(-elo / l) - std::exp(-ehi / l)) + A * (std::erf(std::exp((mu - elo) / (2 * sg)) / std::sqrt(2.0)) - std::erf(std::exp((mu - ehi) / (2 * sg)) / std::sqrt(2.0))); }
// the integral of f = c * (Moyal + exponential) over [elo,ehi]: c times the closed form
extern "C" double vcs_romberg(std::function<double(double)> const & f, double a, double b, double) {
  vc_assert(a == elo && b == ehi, "integrated over the energy range");
  double x = (elo + ehi) / 2;
  return f(x) / moyal_raw(x) * moyal_int();
}
extern "C" bool moyal_in(double x) { return (elo <= x) & (x <= ehi); }
extern "C" bool moyal_density(double x, double y) { return y * moyal_int() == moyal_raw(x); }
static void moyal_setup() {
  elo = vc_pos("lo"); ehi = elo + vc_pos("w"); mu = vc_real("mu"); sg = vc_pos("sg"); A = vc_pos("A"); l = vc_pos("l"); B = vc_pos("B");
#ifdef VC_NATIVE
  elo = std::fmod(elo, 10) + 0.1; ehi = elo + 0.5 + std::fmod(ehi, 10); mu = std::fmod(mu, 10); sg = std::fmod(sg, 3) + 0.5; l = std::fmod(l, 10) + 1; A = std::fmod(A, 100) + 0.1; B = std::fmod(B, 100) + 0.1;
#endif
}
//@ ModifiedMoyalPlusExponential: the density is the Moyal plus exponential shape divided by its integral over the range, zero outside; the integral is the physical normalisation when asked for
VC_HARNESS(moyal) {
  moyal_setup(); bool phys = vc_choice("phys", 2); double E = vc_pos("E");
  ModifiedMoyalPlusExponentialEnergyDistribution d(elo, ehi, mu, sg, A, l, B, phys);
  double J = moyal_int(); vc_assume(J > 0);
  double p = genprob(d, E);
  if(E < elo || E > ehi) vc_assert(p == 0, "nothing is generated outside the energy range");
  else vc_eq(p * J, moyal_raw(E), "normalised density inside the range");
  vc_eq(d.pdf(E) * J, moyal_raw(E), "pdf");
  vc_assert(d.IsNormalizationSet() == phys, "physical normalisation only when asked for");
  if(phys) vc_eq(d.GetNormalization(), J, "the normalisation is the integral"); else vc_assert(d.GetNormalization() == 1, "no normalisation");
  vc_cover("moyal");
}
//@ ModifiedMoyalPlusExponential sampling: for any number of Metropolis-Hastings steps the chain stays inside the range and carries the density of its current point
VC_HARNESS(moyal_sample) {
  moyal_setup();
  ModifiedMoyalPlusExponentialEnergyDistribution d(elo, ehi, mu, sg, A, l, B, false); mm = &d;
#ifndef VC_NATIVE
  vc_assume(moyal_int() > 0);
#endif
  double s = sample(d);
  vc_le(elo, s, "sample not below the range"); vc_le(s, ehi, "sample not above the range");
  vc_assert(genprob(d, s) > 0, "a sample has positive generation probability");
  vc_cover("moyal sample");
}
